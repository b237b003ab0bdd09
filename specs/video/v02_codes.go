package video

import (
	"github.com/32bitkid/mpeg/internal/vc"
)

var ghS *vc.Stream
var ghAlign uint64
var ghCode uint64

func spByte(k uint64) uint64 { return vc.Bits(ghS, ghAlign+8*k, 8) }

// hvCodeChecks: Check and Assert of start codes and extension ids at every bit offset.
//
//verif:harness prop=V02
func hvCodeChecks() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	if vc.Bool("id") {
		id := ExtensionID(vc.U32("expected"))
		vc.Assume(vc.EndErr(s) != ErrUnexpectedExtensionID)
		ok, err := id.Check(s)
		vc.Cover("extension id")
		vc.Assert(vc.Pos(s) == p, "checking consumes nothing")
		if vc.Len(s) < p+4 {
			vc.Assert(err == vc.EndErr(s) && !ok, "the stream's error is returned")
			vc.Assert(id.Assert(s) == vc.EndErr(s), "the stream's error is returned")
			return
		}
		want := vc.Bits(s, p, 4) == uint64(id)
		vc.Assert(err == nil && ok == want, "checking an extension id is exact")
		err = id.Assert(s)
		if want {
			vc.Assert(err == nil && vc.Pos(s) == p+4, "asserting consumes the extension id when present")
		} else {
			vc.Assert(err == ErrUnexpectedExtensionID && vc.Pos(s) == p, "asserting fails and consumes nothing otherwise")
		}
		return
	}
	code := StartCode(vc.U32("code"))
	vc.Assume(vc.EndErr(s) != ErrUnexpectedStartCode)
	ok, err := code.Check(s)
	vc.Cover("start code")
	vc.Assert(vc.Pos(s) == p, "checking consumes nothing")
	if vc.Len(s) < p+32 {
		vc.Assert(err == vc.EndErr(s) && !ok, "the stream's error is returned")
		vc.Assert(code.Assert(s) == vc.EndErr(s), "the stream's error is returned")
		return
	}
	want := vc.Bits(s, p, 32) == uint64(code)
	vc.Assert(err == nil && ok == want, "checking a start code is exact")
	err = code.Assert(s)
	if want {
		vc.Assert(err == nil && vc.Pos(s) == p+32, "asserting consumes the start code when present")
	} else {
		vc.Assert(err == ErrUnexpectedStartCode && vc.Pos(s) == p, "asserting fails and consumes nothing otherwise")
	}
}

//verif:harness prop=V02
func hvClasses() {
	c := vc.U32("code")
	vc.Cover("classified")
	vc.Assert(StartCode(c).IsSlice() == (c >= 0x101 && c <= 0x1af), "slices are the codes 0x101 to 0x1AF")
	id := vc.U32("id")
	vc.Assert(ExtensionID(id&15).IsReserved() == (id&15 == 0 || id&15 == 6 || id&15 >= 11), "reserved extension ids are 0, 6 and 11 to 15")
	vc.Assert(PictureStartCode == 0x100 && UserDataStartCode == 0x1b2 && SequenceHeaderStartCode == 0x1b3 && ExtensionStartCode == 0x1b5 && SequenceEndStartCode == 0x1b7 && GroupStartCode == 0x1b8 && StartCodePrefix == 1, "the start codes have the standard's values")
	vc.Assert(SequenceExtensionID == 1 && SequenceDisplayExtensionID == 2 && QuantMatrixExtensionID == 3 && CopyrightExtensionID == 4 && SequenceScalableExtensionID == 5 && PictureDisplayExtensionID == 7 && PictureCodingExtensionID == 8 && PictureSpatialScalableExtensionID == 9 && PictureTemporalScalableExtensionID == 10, "the extension ids have the standard's values")
}

//verif:loop for=(*VideoSequence).AlignTo n=1
func invAlignTo() {
	p := vc.Pos(ghS)
	j := vc.U64("j")
	vc.Inv(p >= ghAlign && p <= vc.Len(ghS) && (p-ghAlign)&7 == 0, "one byte is skipped at a time")
	vc.Inv(j >= 1<<50 || ghAlign+8*j >= p || vc.Bits(ghS, ghAlign+8*j, 32) != ghCode, "no start code is skipped")
	vc.Dec(vc.Len(ghS) - p)
}

//verif:harness prop=V02
//verif:inv invAlignTo
func hvAlignTo() {
	if vc.Native() {
		return
	}
	for off := uint64(0); off < 8; off++ {
		if vc.U64("off")&7 == off {
			checkAlignTo(off)
			return
		}
	}
}

func checkAlignTo(off uint64) {
	s := vc.NewStream("s", off)
	q := (off + 7) &^ 7
	code := vc.U32("code")
	ghS, ghAlign, ghCode = s, q, uint64(code)
	vs := &VideoSequence{BitReader: s}
	j := vc.U64("j")
	err := vs.AlignTo(StartCode(code))
	p := vc.Pos(s)
	if err == nil {
		vc.Cover("found")
		vc.Assert(p >= q && (p-q)&7 == 0 && p+32 <= vc.Len(s) && vc.Bits(s, p, 32) == uint64(code), "aligning stops at the start code")
		vc.Assert(j >= 1<<50 || q+8*j >= p || vc.Bits(s, q+8*j, 32) != uint64(code), "aligning stops at its first occurrence")
		return
	}
	vc.Cover("not found")
	vc.Assert(err == vc.EndErr(s), "the stream's error is returned")
	vc.Assert(j >= 1<<50 || q+8*j+32 > vc.Len(s) || vc.Bits(s, q+8*j, 32) != uint64(code), "only if the start code does not occur")
}

//verif:loop for=next_start_code n=1
func invNextStartCode() {
	p := vc.Pos(ghS)
	j := vc.U64("j")
	vc.Inv(p >= ghAlign && p <= vc.Len(ghS) && (p-ghAlign)&7 == 0, "one byte is read at a time")
	vc.Inv(j >= 1<<50 || ghAlign+8*j >= p || spByte(j) == 0, "the bytes skipped are zero")
	vc.Dec(vc.Len(ghS) - p)
}

//verif:harness prop=V02
//verif:inv invNextStartCode
func hvNextStartCode() {
	if vc.Native() {
		return
	}
	for off := uint64(0); off < 8; off++ {
		if vc.U64("off")&7 == off {
			checkNextStartCode(off)
			return
		}
	}
}

func checkNextStartCode(off uint64) {
	s := vc.NewStream("s", off)
	q := (off + 7) &^ 7
	ghS, ghAlign = s, q
	vc.Assume(vc.EndErr(s) != ErrUnexpectedNonZeroByte)
	j := vc.U64("j")
	err := next_start_code(s)
	p := vc.Pos(s)
	if err == nil {
		vc.Cover("found")
		vc.Assert(p >= q && (p-q)&7 == 0 && p+24 <= vc.Len(s) && vc.Bits(s, p, 24) == 1, "the stream is left at a start code prefix")
		vc.Assert(j >= 1<<50 || q+8*j >= p || spByte(j) == 0, "only zero bytes precede it")
	} else if err == ErrUnexpectedNonZeroByte {
		vc.Cover("not zero")
		vc.Assert(p >= q+8 && (p-q)&7 == 0 && p <= vc.Len(s) && vc.Bits(s, p-8, 8) != 0, "a byte other than zero is reported")
		vc.Assert(j >= 1<<50 || q+8*j >= p-8 || spByte(j) == 0, "it is the first byte that is not zero")
	} else {
		vc.Cover("end")
		vc.Assert(err == vc.EndErr(s), "the stream's error is returned")
		vc.Assert(p+24 > vc.Len(s) && (j >= 1<<50 || q+8*j >= p || spByte(j) == 0), "only if it ends before a start code prefix and other bytes")
	}
}
