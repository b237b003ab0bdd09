BR=" The contract of the bitreader dependency is proved under R01, for sources that deliver at least a byte per successful Read and report an error only without data."
CLAIMED={
 "T01":{"note":"Proved for every stream content, length, final error and every previous content of the packet object."+BR},
 "T02":{"note":"Proved for every adaptation field length, flags and contents; extension and private data through their own contracts."+BR},
 "T03":{"note":"Proved for every bit alignment and stream with a loop invariant for the search."+BR},
 "T04":{"note":"Proved for every packet history over an abstract packet source (the contract of Packet.Next, itself proved under T01), every read size, conditions as uninterpreted functions of the packet."},
 "T05":{"note":"Proved for every packet history over an abstract packet source (the contract of Packet.Next, itself proved under T01) and every read size."},
 "T06":{"note":"Proved for every number of registered channels, one of them observed (an arbitrary one; loop invariants for delivering and closing), every packet history over an abstract packet source (the contract of Packet.Next, itself proved under T01), every condition and every consumption."},
 "T08":{"note":"Proved for every packet history: every payload or unit is delivered, in order."},
 "T07":{"note":"Proved for every packet, PID and operand outcome."},
 "P01":{"note":"Proved for every stream content, length, final error and previous content of the packet object; stuffing loop with an invariant."+BR},
 "P02":{"note":"Proved for every packet history over an abstract packet source (the contract of Packet.Next, itself proved under P01) and every read size."},
 "S01":{"note":"Proved for every stream content, length and final error; the system header's entries through a loop invariant over a list of any length."+BR},
 "S02":{"note":"Proved for every stream of packs and packets over the contracts of the pack header (S01) and PES parsers (P01), every read size and every state of the reader."+BR},
 "S03":{"note":"Proved for every stream of packs and packets over the contracts of the pack header (S01) and PES parsers (P01); the goroutine of a pack through its own contract; channels with receivers that drain each pack."+BR},
 "R01":{"note":"Proved for every packet history, read size and state of the readers; the bitreader dependency (source in the module cache) is verified as well, function by function, against the stream contract the other properties use, over any source that delivers at least a byte per successful Read and reports an error only without data: which the readers are proved to be."},
 "V01":{"note":"Proved for every stream content, length and final error over the contract of the start code search (proved under V02); extra information and user data of any length with loop invariants."+BR},
 "V02":{"note":"Proved for every code, bit alignment, stream content, length and final error; both searches with loop invariants."+BR},
 "V03":{"note":"Proved for every stream content and every matrices previously in force, over the contract of the start code search (proved under V02)."+BR},
 "V04":{"note":"Proved for every bit pattern at every position against the standard's tables; the huffman library's code is executed symbolically as well, only its removal of blanks from the code strings is taken for granted."+BR},
 "V05":{"note":"Proved for every sequence of code words over the contracts of the coefficient and size decoders (proved under V04), every previous content and predictor, with loop invariants over one arbitrary position."+BR},
 "V06":{"note":"Proved for every block, matrix, quantiser scale code and type, scan order, precision, chroma format and component."},
 "V07":{"note":"Proved for every block of coefficients in [-2048, 2047] (error at most 3) and every block whose exact transform lies in [-384, 384] (error at most 1): the function's rounding is followed as exact affine forms, every bound is a query of linear real arithmetic."},
 "V08":{"note":"Proved for every stream of motion codes (any code words at any positions; the decoder is proved under V04), f_codes 1 to 9, predictions, motion types and picture structures; dual prime vectors panic as documented."+BR},
 "V09":{"note":"Proved for every block index, vector (components of up to 14 bits), macroblock position, frame size (up to 256 by 4096 macroblocks), frame content, combination of directions and held references. Products of positions and strides are decided as integer arithmetic, with ranges that show that they do not wrap."},
 "V10":{"note":"Proved for every block content, block index, DCT mode, macroblock position and frame of up to 4096 by 1024 macroblocks (copies: 256 by 1024); slices and pictures of every size the headers can express. Callees are represented by contracts that V05 to V09, V11 and this property prove. Chroma formats other than 4:2:0 are documented as unsupported."},
 "V11":{"note":"Proved for every bit pattern, picture parameter, address and predictor state, with an inductive invariant for the escapes, for the blocks, and for the macroblocks of a slice. The elements with codes of their own (increments, types, patterns, vectors, coefficients) are represented by contracts that V04, V05 and V08 prove. The library peeks 11 bits for escapes and 23 bits for the end of a slice, so a stream that ends right there is reported as truncated."},
 "V12":{"note":"Proved for every state of the frame store, every sequence of elements and every outcome of each, with an inductive invariant for the pictures decoded in search of the one displayed next. The elements of a sequence are represented by contracts that V01 to V03 and V10 prove. Groups of up to 1024 pictures; the picture numbers of longer ones wrap."},
}
NA={}
