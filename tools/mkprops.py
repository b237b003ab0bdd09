#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so the long lines stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I=["inputs"];IH=["inputs","histories"]
p("T01","TS packet parse is exact and consumes exactly 188 bytes",
 "For every byte stream positioned at a sync byte, reading a transport stream packet reports each header field (error indicator, unit start, priority, PID, scrambling, adaptation field control, continuity counter) as the value of its ISO 13818-1 bit field and the payload as exactly the bytes of the 188-byte packet that follow the header and adaptation field, and leaves the stream exactly 188 bytes further on. A packet without a payload (or without an adaptation field) reports none, also when the packet object is reused for a later packet. A packet that is truncated, or whose adaptation field does not fit in it, yields an error and never a runtime fault.",
 IH,"all byte contents, all truncation points, all previous contents of a reused packet object",
 "The tests parse four fixed packets from fresh objects; field mixing, adaptation-only packets, reuse and malformed lengths are not sampled.",
 ["ts/packet.go","ts/adaptation_field.go"],[("Packet.Next","ts/packet.go"),("newAdaptationField","ts/adaptation_field.go")],
 ["ts.NewPacket","(*ts.Packet).Next"],[("Packet.Payload","view of the payload bytes of the current packet","ts/packet.go")])
p("T02","TS adaptation field contents are reported exactly",
 "When a well-formed packet carries an adaptation field, each of its eight flags equals its bit, and PCR and OPCR (base*300+extension), splice countdown, transport private data and the adaptation extension's fields (legal time window, piecewise rate, splice type, 33-bit DTS) are reported with the values at their ISO 13818-1 positions, exactly when their flag is set and they fit in the declared length. Stuffing and unknown trailing bytes are skipped, so what follows the field is never affected by its contents.",
 I,"all adaptation field lengths, flag combinations and contents",
 "One fixed adaptation field is parsed by a test that only looks at the payload length.",
 ["ts/adaptation_field.go"],[("newAdaptationField","ts/adaptation_field.go"),("newAdaptationExt","ts/adaptation_field.go"),("newTransportPrivateData","ts/adaptation_field.go")],
 ["(*ts.Packet).AdaptationField"])
p("T03","TS resynchronisation finds the first sync byte within 188 bytes",
 "When the stream is not positioned at a byte-aligned sync byte, reading a transport stream packet first drops any partial byte, then skips to the first 0x47 byte among the next 188 bytes and parses the packet that starts there. If none of these 188 bytes is 0x47 it returns the no-sync-byte error, and if the stream ends first it returns the end-of-stream error; it never skips a sync byte.",
 I,"all positions of the sync byte, all garbage contents, all stream lengths and bit alignments",
 "No test starts out of sync.",
 ["ts/packet.go"],[("isAligned","ts/packet.go"),("realign","ts/packet.go")],["(*ts.Packet).Next","ts.ErrNoSyncByte"])
p("T04","TS payload reader is the concatenation of matching payloads",
 "Whatever buffer sizes the caller reads with, the bytes delivered by the transport stream payload reader are the concatenation, in order, of the payloads of the packets matching its condition, with no byte lost, repeated or invented. With a skip-until condition, delivery starts with the first packet satisfying it; with a take-while condition, delivery ends before the first packet failing it and the reader then reports end of stream for good. A stream error is reported to the caller instead of being retried forever, after every byte parsed before it has been delivered.",
 IH,"all packet sequences, all conditions, all sequences of read sizes, all positions of a stream error",
 "The tests drain one fixed stream with one buffer size.",
 ["ts/payload_reader.go","ts/transport_stream_control.go"],[("payloadReader.Read","ts/payload_reader.go"),("payloadReader.realign","ts/payload_reader.go")],
 ["ts.NewPayloadReader"],[("remainder","bytes parsed but not yet delivered","ts/payload_reader.go")])
p("T05","TS payload unit reader delivers whole units, each ended by EOP",
 "The payload unit reader ignores everything before the first matching packet with the unit start flag, then delivers, for each unit, the concatenated payloads of the matching packets from a unit start up to the next one, and reports end-of-packet exactly at each unit's end, whatever buffer sizes are used. The last unit is delivered as well when the stream ends, and only then is the stream error reported.",
 IH,"all packet sequences, conditions and sequences of read sizes",
 "No test uses the payload unit reader.",
 ["ts/payload_unit_reader.go"],[("payloadUnitBuffer.Read","ts/payload_unit_reader.go"),("payloadUnitBuffer.fill","ts/payload_unit_reader.go")],
 ["ts.NewPayloadUnitReader","ts.EOP"],[("state","ready while a unit is being delivered","ts/payload_unit_reader.go")])
p("T06","TS demuxer delivers each matching packet, unaltered, in order",
 "Between the first packet satisfying the skip-until condition and the packet before the first one failing the take-while condition, the demuxer sends every packet to each registered channel whose condition it satisfies, in stream order, and nothing else. A packet that has been sent is never changed afterwards. When the stream ends, fails or is cut off, every registered channel is closed, then completion is signalled, and the recorded error is the stream's error (none after a take-while cut-off).",
 ["inputs","histories","schedules"],"all packet sequences, conditions and registrations; receivers that keep packets",
 "The tests count packets of one fixed stream and never retain them.",
 ["ts/demuxer.go"],[("Demuxer.Go","ts/demuxer.go"),("Demuxer.Where","ts/demuxer.go")],["ts.NewDemuxer","(*ts.Demuxer).Where","(*ts.Demuxer).Go","(*ts.Demuxer).Err"])
p("T07","TS packet testers compute their boolean meaning",
 "For every packet, a PID tester holds exactly when the packet's PID equals the given one and the unit-start tester exactly when the packet's unit start flag is set. Not, And and Or of testers hold exactly when the negation, conjunction and disjunction of their operands do, and testing never alters the packet.",
 I,"all packets, all PIDs, all operand testers",
 "The tests evaluate each tester on a handful of packets.",
 ["ts/packet_tester.go"],[("IsPID / Not / And / Or","ts/packet_tester.go")],["ts.IsPID","ts.IsPayloadUnitStart","ts.PacketTester"])
p("T08","Packet channel transforms deliver payloads and whole units",
 "The payload-only transform of a packet channel (transport stream or PES) delivers exactly the payload of each packet received, in order, and closes its output when the input closes. The payload-unit transform of a transport stream channel ignores packets before the first unit start, then delivers for each unit the concatenated payloads of its packets, the last one when the input closes, and then closes its output.",
 ["inputs","histories","schedules"],"all packet sequences",
 "No test uses the payload-unit transform; one test counts payload-only deliveries.",
 ["ts/packet_channel.go","pes/packet_channel.go"],[("PacketChannel.PayloadOnly","ts/packet_channel.go"),("PacketChannel.PayloadUnit","ts/packet_channel.go")],["ts.PacketChannel","pes.PacketChannel"])
p("P01","PES packet parse is exact",
 "Reading a PES packet reports stream id, packet length and, for stream ids that carry a PES header, every supported header field (flags, scrambling control, PTS and DTS as the low 32 bits of the 33-bit stamps, header length, extension with private data and P-STD buffer) as the value at its ISO 13818-1 position, and as payload exactly the bytes between the header and the end declared by the packet length (all remaining bytes when it is zero); the stream is left exactly at that end. Packets of stream ids without a PES header are consumed whole, padding is not reported as payload, and nothing is kept from the previous packet when the object is reused. Bad prefixes, markers, stuffing, truncation and inconsistent lengths yield an error, never a runtime fault (only the header features this library declares unsupported may panic).",
 IH,"all byte contents, lengths, truncation points and previous contents of a reused object",
 "Two fixed packets are parsed by the tests.",
 ["pes/packet.go","pes/header.go","pes/extension.go","pes/stream_assigments.go"],[("Packet.Next","pes/packet.go"),("readHeader","pes/header.go"),("readTimeStamp","pes/header.go"),("readExtension","pes/extension.go")],["pes.NewPacket","(*pes.Packet).Next"])
p("P02","PES payload reader is the concatenation of packet payloads",
 "Whatever buffer sizes the caller reads with, the bytes delivered by the PES payload reader are the concatenation, in order, of the payloads of the successive PES packets, with no byte lost, repeated or invented, packets without payload contributing nothing. A parse or stream error is reported after every byte parsed before it.",
 IH,"all packet sequences and all sequences of read sizes",
 "No test uses the PES payload reader.",
 ["pes/payload_reader.go"],[("payloadReader.Read","pes/payload_reader.go")],["pes.NewPayloadReader"],[("remainder","bytes parsed but not yet delivered","pes/payload_reader.go")])
p("S01","Program stream pack and system headers are parsed exactly",
 "Reading a pack header reports the system clock reference base (low 32 bits) and extension and the program mux rate as the values at their ISO 13818-1 positions, requires every marker bit, skips the declared stuffing bytes and reads a system header exactly when one follows. A system header reports header length, rate bound, audio bound, video bound, each flag and every stream entry (id, buffer scale, buffer size) as the value at its position, in order. Missing start codes, markers or data yield an error, never a runtime fault.",
 I,"all byte contents, stuffing lengths, numbers of stream entries and truncation points",
 "The program stream package has no tests.",
 ["ps/pack_header.go","ps/system_header.go","ps/start_code.go"],[("NewPackHeader","ps/pack_header.go"),("readSystemHeader","ps/system_header.go")],["ps.NewPackHeader"])
p("S02","Program stream reader is the concatenation of PES payloads",
 "Whatever buffer sizes the caller reads with, the bytes delivered by the program stream reader are the concatenation, in order, of the payloads of the PES packets of all packs up to the program end code, with no byte lost or repeated. At the program end code it reports end-of-file after the last byte, and any stream or parse error is reported after the bytes before it instead of being swallowed.",
 IH,"all pack and packet sequences, all sequences of read sizes, all error positions",
 "The program stream package has no tests.",
 ["ps/pack_reader.go"],[("packreader.Read","ps/pack_reader.go")],["ps.NewPackReader"],[("remainder","bytes parsed but not yet delivered","ps/pack_reader.go")])
p("S03","Program stream decoder delivers packs and their packets in order",
 "The program stream decoder delivers each pack with its header, and on each pack's channel exactly the PES packets up to the next pack start or program end code, in stream order, closing the pack's channel before the next pack is delivered. When it stops, the pack channel is closed and the result is success exactly when a program end code was reached; otherwise the recorded error is that of the pack header or the stream that stopped it, or the missing-program-end error.",
 ["inputs","histories","schedules"],"all streams of packs and packets; receivers that drain each pack before the next",
 "The program stream package has no tests.",
 ["ps/decoder.go","ps/pack.go"],[("decoder.Go","ps/decoder.go"),("readPack","ps/pack.go")],["ps.NewDecoder"])
p("R01","Readers can be chained and read bitwise: no byte is lost at a boundary",
 "The transport stream, PES and program stream readers never return data along with an error: the error that ends the data is returned once, right after its last byte, and a successful read of a non-empty buffer delivers at least one byte. Hence a bit reader over any of them, or over a chain of them (PES payloads of transport payloads, say), delivers exactly the bytes the reader delivers, including the last ones before an error or the end, for every sequence of peeks, reads and skips, and reports the end only after them.",
 ["inputs","histories"],"all packet sequences, all read sizes, all sequences of bit reads, peeks and skips, all positions of the end or an error",
 "No test stacks one reader on another; losing the last bytes depends on the alignment of the end of the data and the width of the last reads.",
 ["ts/payload_reader.go","ts/payload_unit_reader.go","pes/payload_reader.go","ps/pack_reader.go"],[("payloadReader.Read","ts/payload_reader.go"),("payloadUnitBuffer.Read","ts/payload_unit_reader.go"),("payloadReader.Read","pes/payload_reader.go"),("packreader.Read","ps/pack_reader.go")],["ts.NewPayloadReader","ts.NewPayloadUnitReader","pes.NewPayloadReader","ps.NewPackReader"])
p("V01","Video sequence, GOP, picture headers and extensions are parsed exactly",
 "Reading a sequence header, sequence extension, sequence display extension, group of pictures header, picture header, picture coding extension, picture temporal scalable extension or user data reports every field as the value at its ISO 13818-2 position and leaves the stream at the following start code. A missing start code, extension id or marker bit, or truncation, yields the corresponding error and never a runtime fault. The reported picture size combines the header's 12-bit values with the extension's 2 high bits, and the time code splits the 25 GOP bits into their fields (its inner marker bit is not checked). User data is reported up to the next start code prefix.",
 I,"all byte contents and truncation points",
 "One fixed sequence header is parsed by a test.",
 ["video/sequence_header.go","video/sequence_extension.go","video/sequence_display_extension.go","video/group_of_pictures_header.go","video/picture_header.go","video/picture_coding_extension.go","video/picture_temporal_scalable_extension.go","video/video_sequence.go"],
 [("ReadSequenceHeader","video/sequence_header.go"),("ReadGOPHeader","video/group_of_pictures_header.go"),("picture_header","video/picture_header.go"),("picture_coding_extension","video/picture_coding_extension.go")],
 ["video.ReadSequenceHeader","video.ReadGOPHeader","(*video.VideoSequence).Size","(*video.GroupOfPicturesHeader).TimeCode"])
p("V02","Start code search, checks and classification are exact",
 "Checking for a start code or extension id never consumes anything and is true exactly when the next bits equal it; asserting consumes it exactly when present and otherwise fails consuming nothing. Aligning to a start code stops at its first byte-aligned occurrence, skipping everything before it and nothing after; advancing to the next start code accepts only zero bytes before the prefix and reports any other byte as an error. A code is classified as a slice exactly for 0x101 to 0x1AF, and an extension id as reserved exactly for 0, 6 and 11 to 15.",
 I,"all byte contents, bit alignments and stream lengths",
 "No test covers searching, failed assertions or classification boundaries.",
 ["video/start_codes.go","video/extension_id.go","video/next_start_code.go","video/video_sequence.go","video/user_data.go"],
 [("StartCode.Check/Assert/IsSlice","video/start_codes.go"),("ExtensionID.*","video/extension_id.go"),("next_start_code","video/next_start_code.go"),("VideoSequence.AlignTo","video/video_sequence.go")],
 ["(*video.VideoSequence).AlignTo","video.StartCode","video.ExtensionID"])
p("V03","Quantiser matrices in force follow ISO 13818-2",
 "After a sequence header, the intra and non-intra matrices in force (luminance and chrominance) are the ones it transmits, or the standard's default matrices where it transmits none; each later quant matrix extension replaces exactly the matrices it transmits, a luminance matrix also replacing the chrominance one. Transmitted matrices are installed in inverse zigzag order.",
 IH,"all matrix contents and load flag combinations, any matrices previously in force",
 "The only test compares a transmitted matrix in transmission order and never the matrices used for decoding.",
 ["video/sequence_header.go","video/quant_matrix_extension.go","video/quantisation_matrix.go"],[("VideoSequence.sequence_header","video/sequence_header.go"),("quant_matrix_extension","video/quant_matrix_extension.go")],
 ["quantiser matrices used to decode blocks"],[("quantisationMatricies","matrices in force","video/video_sequence.go")])
p("V04","Variable length codes decode as in ISO 13818-2 Annex B",
 "For every bit pattern that is not within the last three bytes of the stream, decoding a macroblock address increment, macroblock type (I, P, B), coded block pattern, motion code, DC size (luminance, chrominance) or DCT coefficient (table zero for first and later coefficients, table one for later ones, with sign, escape and end of block) yields the value that the standard's tables B-1 to B-4, B-9, B-10 and B-12 to B-16 assign to its code word and consumes exactly that code word. Patterns that start no code word yield an error and consume nothing.",
 I,"all bit patterns",
 "No test decodes a variable length code.",
 ["video/macroblock_addressing.go","video/macroblock_type.go","video/coding_block_pattern.go","video/motion_vectors.go","video/dtc_coefficients.go"],
 [("huffman tables","video/dtc_coefficients.go"),("decodeMotionCode","video/motion_vectors.go"),("decodeCpb","video/coding_block_pattern.go")],["decoded values"])
p("V05","Coefficient blocks are decoded as in ISO 13818-2 7.2",
 "Decoding a coefficient block yields in scan order the DC coefficient (intra blocks: predictor of the component plus the sign-extended differential, which becomes the new predictor of that component only) and the run/level pairs at the positions their runs dictate, with zeros everywhere else, using the second coefficient table exactly for intra blocks with intra_vlc_format 1, and stops right after the end-of-block code. A block whose runs go past 64 coefficients yields an error, never a runtime fault.",
 IH,"all bit patterns, components, predictor values and table selections",
 "No test decodes a block.",
 ["video/block.go","video/dtc_coefficients.go","video/dc_dct_predictors.go"],[("block.read","video/block.go"),("newDCTCoefficientDecoder","video/dtc_coefficients.go")],["decoded blocks"],
 [("dcDctPredictors","DC predictors per component","video/dc_dct_predictors.go")])
p("V06","Inverse scan, quantisation, saturation, mismatch follow ISO 13818-2",
 "For every block of coefficients, quantiser scale code, scale type, scan order, DC precision and matrix, the dequantised block equals the one ISO 13818-2 sections 7.3 and 7.4 define: inverse scan in the selected order, the intra DC multiplier, the intra and non-intra formulas with truncation toward zero, saturation to [-2048, 2047] and the parity-based mismatch adjustment of the last coefficient.",
 I,"all coefficient blocks, matrices and parameters",
 "No test dequantises a block.",
 ["video/decode_block.go","video/quantiser_scale_table.go"],[("block.decode_block","video/decode_block.go")],["dequantised blocks"])
p("V07","The inverse DCT is accurate for every block",
 "For every block of coefficients in [-2048, 2047], the integer inverse DCT never overflows and each output sample differs from the exact real-valued 8x8 inverse DCT of the block by at most 3, and by at most 1 in blocks all of whose exact samples lie in [-384, 384].",
 I,"all 4096^64 coefficient blocks",
 "No test runs the transform; sampling cannot exclude overflow or a bad corner.",
 ["video/idct.go"],[("block.idct","video/idct.go")],["decoded samples"])
p("V08","Motion vectors are decoded and predicted as in ISO 13818-2 7.6.3",
 "For every motion code, residual and f_code 1 to 9, the decoded vector is the prediction plus the signed differential, wrapped into the range f_code defines, and becomes the next prediction (with the field scaling of vertical components); with a single vector the prediction of the second vector in that direction is updated to it as well, and all other predictions stay unchanged; exactly the motion code and, when present, its f_code-1 residual bits are consumed. Resetting makes every prediction and vector zero.",
 IH,"all bit patterns, f_codes, predictions and vector formats",
 "No test decodes a vector.",
 ["video/motion_vectors.go","video/motion_vector_info.go"],[("update_actual","video/motion_vectors.go"),("motion_vectors","video/motion_vectors.go")],["decoded vectors"],
 [("predictions","motion vector predictors","video/motion_vectors.go")])
p("V09","Motion compensated prediction follows ISO 13818-2 7.6",
 "For every vector, block position and reference frame content, the frame-based prediction added to a block is (field and dual-prime predictions are not formed by this decoder), per sample, the reference sample displaced by the vector, with half-sample positions averaged over two or four samples with rounding, chrominance vectors halved toward zero, and forward and backward predictions averaged with rounding when both apply; with no prediction, or none whose reference frame is held, the block is unchanged. A vector that points outside the reference frame, horizontally or vertically, yields an error, leaves the block as it was, and never causes a runtime fault.",
 I,"all vectors, block indices, macroblock positions, reference contents and prediction modes",
 "No test predicts a block.",
 ["video/motion_compensation.go"],[("block.motion_compensation","video/motion_compensation.go")],["predicted samples"])
p("V10","Decoded blocks land at their pixels, clamped, and nowhere else",
 "Each decoded 8x8 block is clamped to 0..255 and written exactly to the pixels that its macroblock address, block index and frame/field DCT mode dictate in a 4:2:0 macroblock, and every other pixel of the frame keeps its value. Skipped macroblocks of P pictures are exact copies of the same macroblocks of the past reference frame, and nothing else is written. Macroblocks outside the frame yield an error, never a runtime fault.",
 I,"all block contents, block indices, macroblock addresses, frame sizes and DCT modes",
 "No test decodes pixels.",
 ["video/macroblock.go","video/block.go","video/copy_macroblocks.go","video/picture_data.go"],[("updateFrameSlice","video/macroblock.go"),("block.clamp","video/block.go"),("pframe_copy_macroblocks","video/copy_macroblocks.go"),("createFrameBuffer","video/picture_data.go")],["decoded frames"])
p("V11","Macroblock layer syntax and predictor resets follow ISO 13818-2",
 "Decoding a macroblock consumes exactly the elements that its type and the picture's parameters call for (escapes and address increment, type, motion type, DCT type, quantiser scale, vectors, marker, coded block pattern, and the coded blocks in order; chroma format 4:2:0) and advances the macroblock address by the increment. DC predictors are reset after skipped macroblocks and non-intra macroblocks and only then; motion predictors are reset as section 7.6.3.4 prescribes and only then; an error anywhere is returned to the caller.",
 IH,"all bit patterns, picture parameters and predictor states",
 "No test decodes a macroblock.",
 ["video/macroblock.go","video/slice.go","video/coding_block_pattern.go"],[("macroblock","video/macroblock.go"),("macroblock_mode","video/macroblock.go"),("codedBlockPattern.decode","video/coding_block_pattern.go")],["decoded frames"])
p("V12","Reference frames and display order are managed correctly",
 "The reference store always holds the last two reference frames; for a picture with a given temporal reference the past reference is the latest held frame that precedes it (or belongs to an earlier group) and the future reference the held one that follows it, and B pictures never become references. Frames are returned in display order within a group (of up to 1024 pictures), each at most once, starting from temporal reference zero, and the first error is reported to the caller.",
 IH,"all sequences of picture types, temporal references and groups",
 "No test decodes a sequence.",
 ["video/frame_store.go","video/video_sequence.go","video/frame_provider.go"],[("frameStore.set/add/gop/tryGet","video/frame_store.go"),("VideoSequence.Next","video/video_sequence.go")],["(*video.VideoSequence).Next"],
 [("frames","the two reference frames held","video/frame_store.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
