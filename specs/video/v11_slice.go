package video

import (
	"image"

	"github.com/32bitkid/mpeg/internal/vc"
)

// What has been decoded of a slice: a macroblock may end anywhere after its beginning.
type ghSliceState struct {
	vs    *VideoSequence
	frame *image.YCbCr
	row   int
	calls int
	at    uint64 // where the next macroblock begins
	addr  int    // of the macroblock before
	dcp   dcDctPredictors
	mvd   motionVectorData
	qsc   uint32
	err   error
	extra uint64 // where the extra information begins
	n     int    // pieces of it
	piece int    // one of them
}

var ghL ghSliceState

func spDCReset() int32 {
	return 128 << (ghL.vs.PictureCodingExtension.intra_dc_precision & 3)
}

// spSliceNext: where the next macroblock begins.
func spSliceNext() uint64 {
	if ghL.calls == 0 {
		return ghL.extra + 9*uint64(ghL.n) + 1
	}
	return ghL.at
}

// ctMacroblock: hvMacroblock.
//
//verif:contract for=(*VideoSequence).macroblock
func ctMacroblock(vs *VideoSequence, addr, row int, dcp *dcDctPredictors, reset dcDctPredictorResetter, mvd *motionVectorData, qsc *uint32, dest *image.YCbCr) (int, error) {
	n := uint64(ghL.calls)
	p := vc.Pos(vs)
	f := ghL.frame
	vc.Assert(vs == ghL.vs && ghL.err == nil && p == spSliceNext(), "the macroblocks of a slice follow each other")
	vc.Assert(addr == ghL.addr && row == ghL.row, "macroblocks are addressed from the macroblock before, and the first one from the start of the row")
	vc.Assert(vc.IsWindow(dest.Y, f.Y, 16*row*f.YStride) && vc.IsWindow(dest.Cb, f.Cb, 8*row*f.CStride) && vc.IsWindow(dest.Cr, f.Cr, 8*row*f.CStride), "a slice is decoded into its row of macroblocks")
	vc.Assert(dest.YStride == f.YStride && dest.CStride == f.CStride && dest.Rect.Dx() == f.Rect.Dx(), "a slice is decoded into its row of macroblocks")
	vc.Assert(*dcp == ghL.dcp, "the DC predictors are reset at the start of a slice, and then left to the macroblocks")
	vc.Assert(mvd.predictions == ghL.mvd.predictions && mvd.actual == ghL.mvd.actual && (n == 0 || mvd.previous == ghL.mvd.previous), "the predictions of vectors are reset at the start of a slice, and then left to the macroblocks")
	vc.Assert(*qsc == ghL.qsc, "the quantiser scale is that of the slice, until a macroblock changes it")
	reset()
	vc.Assert(dcp[0] == spDCReset() && dcp[1] == spDCReset() && dcp[2] == spDCReset(), "resetting sets every DC predictor to half of its range")
	ghL.calls++
	if vc.UFBool("v.mbbad", n) {
		ghL.err = vc.UFErr("v.mberr", n)
		vc.Assume(ghL.err != nil)
		return 0, ghL.err
	}
	ghL.at = vc.UF("v.mbend", n)
	vc.Assume(ghL.at > p && ghL.at <= vc.Len(vs))
	vc.SetPos(vs, ghL.at)
	ghL.addr = vc.UFInt("v.mbaddr", n)
	ghL.qsc = vc.UFU32("v.mbqsc", n)
	ghL.dcp[1] = int32(vc.UFU32("v.mbdc", n))
	ghL.mvd.predictions[1][0][0] = vc.UFInt("v.mbmv", n, 0)
	ghL.mvd.actual[0][1][0] = vc.UFInt("v.mbmv", n, 1)
	ghL.mvd.previous = motionVectorsFormed(vc.UF("v.mbmv", n, 2))
	*dcp, *mvd, *qsc = ghL.dcp, ghL.mvd, ghL.qsc
	return ghL.addr, nil
}

//verif:loop for=(*VideoSequence).slice n=1
func invSliceExtra() {
	k := vc.Iter()
	ghL.n = k
	vc.Inv(vc.Pos(ghS) == ghL.extra+9*uint64(k) && vc.Pos(ghS) <= vc.Len(ghS), "the extra information is consumed piece by piece")
	vc.Inv(ghL.piece >= k || vc.Bits(ghS, ghL.extra+9*uint64(ghL.piece), 1) == 1, "only extra information is consumed")
	vc.Dec(vc.Len(ghS) - vc.Pos(ghS))
}

//verif:loop for=(*VideoSequence).slice n=2
func invMacroblocks(mb_address int, dcp dcDctPredictors, mvd motionVectorData, quantiser_scale_code uint32) {
	vc.Inv(ghL.err == nil && vc.Pos(ghS) == spSliceNext() && vc.Pos(ghS) <= vc.Len(ghS), "the macroblocks of a slice follow each other")
	vc.Inv(mb_address == ghL.addr, "macroblocks are addressed from the macroblock before, and the first one from the start of the row")
	vc.Inv(dcp == ghL.dcp, "the DC predictors are reset at the start of a slice, and then left to the macroblocks")
	vc.Inv(mvd.predictions == ghL.mvd.predictions && mvd.actual == ghL.mvd.actual && (ghL.calls == 0 || mvd.previous == ghL.mvd.previous), "the predictions of vectors are reset at the start of a slice, and then left to the macroblocks")
	vc.Inv(quantiser_scale_code == ghL.qsc, "the quantiser scale is that of the slice, until a macroblock changes it")
	vc.Inv(ghL.calls == vc.Iter(), "every macroblock is decoded once")
	vc.Inv(ghL.calls == 0 || vc.Bits(ghS, ghL.at, 23) != 0, "a slice goes on until 23 zero bits follow a macroblock")
	vc.Dec(vc.Len(ghS) - vc.Pos(ghS))
}

// hvSlice: slices.
//
//verif:harness prop=V11
//verif:use ctMacroblock ctNextStartCode
//verif:inv invSliceExtra invMacroblocks
func hvSlice() { slice() }

// hvSliceRows: where slices are decoded (V10).
//
//verif:harness prop=V10
//verif:use ctMacroblock ctNextStartCode
//verif:inv invSliceExtra invMacroblocks
func hvSliceRows() { slice() }

func slice() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	sh, se, pe := vs.SequenceHeader, vs.SequenceExtension, vs.PictureCodingExtension
	vc.Assume(sh.vertical_size_value < 1<<12 && se.vertical_size_extension < 4 && pe.intra_dc_precision < 4) // V01
	tall := vc.Case(sh.vertical_size_value+se.vertical_size_extension<<12 > 2800)
	q := p + 32
	row := int(vc.Bits(s, p, 32)&0xff) - 1
	if tall {
		q += 3
		row += int(vc.Bits(s, p+32, 3)) * 128
	}
	// below: rows from this one to the end of the picture
	mw, below := vc.IntRange("width", 1, 1<<10), vc.IntRange("below", -1<<10, 1<<10)
	mh := row + below
	vc.Assume(mh >= 1)
	f := frameOf("frame", mw, mh)
	intra := vc.Case(vc.Bits(s, q+5, 1) == 1)
	first := q + 5
	if intra {
		first += 9
	}
	ghL = ghSliceState{vs: vs, frame: f, row: row, addr: -1, extra: first, piece: vc.IntRange("piece", 0, 1<<40)}
	ghL.qsc = uint32(vc.Bits(s, q, 5))
	ghL.dcp = dcDctPredictors{spDCReset(), spDCReset(), spDCReset()}

	err := vs.slice(f)

	if vc.Len(s) < p+32 {
		vc.Cover("truncated")
		vc.Assert(err == spEOF(s), "truncation yields the stream's error")
		return
	}
	code := vc.Bits(s, p, 32)
	if code < 0x101 || code > 0x1af {
		vc.Cover("no slice")
		vc.Assert(err == ErrUnexpectedStartCode, "anything but a slice is an error")
		return
	}
	if vc.Len(s) < q {
		vc.Cover("truncated")
		vc.Assert(err == spEOF(s), "truncation yields the stream's error")
		return
	}
	if below <= 0 {
		vc.Cover("outside")
		vc.Assert(err == ErrInvalidSlicePosition && ghL.calls == 0, "slices outside the picture are an error, and nothing is decoded")
		return
	}
	if vc.Len(s) < q+6 {
		vc.Cover("truncated")
		vc.Assert(err == spEOF(s) || err == vc.EndErr(s), "truncation yields the stream's error")
		return
	}
	if intra && (vc.Len(s) < first || vc.Bits(s, q+7, 7) != 0) {
		vc.Cover("reserved")
		vc.Assert(err == spEOF(s) && vc.Len(s) < first || err == ErrInvalidReservedBits && vc.Len(s) >= first, "reserved bits are zero")
		return
	}
	vc.Assert(intra || ghL.n == 0, "only extra information is consumed")
	vc.Assert(ghL.piece >= ghL.n || vc.Bits(s, first+9*uint64(ghL.piece), 1) == 1, "only extra information is consumed")
	if ghL.calls == 0 {
		vc.Cover("truncated")
		vc.Assert((err == spEOF(s) || err == vc.EndErr(s)) && vc.Len(s) < spSliceNext()+8, "truncation yields the stream's error")
		return
	}
	vc.Assert(vc.Bits(s, first+9*uint64(ghL.n), 1) == 0, "macroblocks follow all the extra information")
	if ghL.err != nil {
		vc.Cover("error")
		vc.Assert(err == ghL.err, "errors are returned")
		return
	}
	if vc.Len(s) < ghL.at+23 {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s), "truncation yields the stream's error")
		return
	}
	vc.Cover("slice")
	vc.Assert(vc.Bits(s, ghL.at, 23) == 0, "a slice goes on until 23 zero bits follow a macroblock")
	vc.Assert(err == spNextErr(ghL.at) && vc.Pos(s) == spNextPos(ghL.at), "the stream is left at the following start code")
}

// What has been decoded of a picture: a slice may end anywhere after its beginning.
type ghPictureState struct {
	vs     *VideoSequence
	mw, mh int
	calls  int
	at     uint64
	pixel  int
	val    byte
	err    error
}

var ghD ghPictureState

// ctSlice: hvSlice.
//
//verif:contract for=(*VideoSequence).slice
func ctSlice(vs *VideoSequence, frame *image.YCbCr) error {
	n := uint64(ghD.calls)
	p := vc.Pos(vs)
	vc.Assert(vs == ghD.vs && ghD.err == nil && p == ghD.at, "the slices of a picture follow each other")
	vc.Assert(frame.Rect == image.Rect(0, 0, 16*ghD.mw, 16*ghD.mh) && frame.SubsampleRatio == image.YCbCrSubsampleRatio420, "a picture is as many macroblocks as its size needs")
	vc.Assert(frame.YStride == 16*ghD.mw && frame.CStride == 8*ghD.mw && len(frame.Y) == 256*(ghD.mw*ghD.mh) && len(frame.Cb) == 64*(ghD.mw*ghD.mh) && len(frame.Cr) == 64*(ghD.mw*ghD.mh), "a picture holds every sample of its macroblocks")
	vc.Assert(n == 0 || frame.Y[ghD.pixel] == ghD.val, "the slices of a picture are decoded into one frame")
	ghD.calls++
	if vc.UFBool("v.slbad", n) {
		ghD.err = vc.UFErr("v.slerr", n)
		vc.Assume(ghD.err != nil)
		return ghD.err
	}
	ghD.at = vc.UF("v.slend", n)
	vc.Assume(ghD.at > p && ghD.at <= vc.Len(vs))
	vc.SetPos(vs, ghD.at)
	ghD.val = vc.UFU8("v.slpix", n)
	frame.Y[ghD.pixel] = ghD.val
	return nil
}

// ctFrameBuffer: hvFrameBuffer.
//
//verif:contract for=createFrameBuffer
func ctFrameBuffer(w, h int, cf ChromaFormat) *image.YCbCr {
	vc.Assert(w > 0 && h > 0 && w < 1<<15 && h < 1<<15 && (w+15)/16 == ghD.mw && (h+15)/16 == ghD.mh && cf == ChromaFormat420, "a picture is as many macroblocks as its size needs")
	return frameOf("picture", ghD.mw, ghD.mh)
}

//verif:loop for=(*VideoSequence).picture_data n=1
func invSlices(frame *image.YCbCr) {
	vc.Inv(ghD.err == nil && vc.Pos(ghS) == ghD.at && ghD.at <= vc.Len(ghS), "the slices of a picture follow each other")
	vc.Inv(ghD.calls == vc.Iter(), "every slice is decoded once")
	vc.Inv(ghD.calls == 0 || frame.Y[ghD.pixel] == ghD.val, "the slices of a picture are decoded into one frame")
	vc.Inv(ghD.calls == 0 || vc.Bits(ghS, ghD.at, 32) >= 0x101 && vc.Bits(ghS, ghD.at, 32) <= 0x1af, "a picture goes on as long as slices follow")
	vc.Dec(vc.Len(ghS) - ghD.at)
}

// hvPicture: pictures.
//
//verif:harness prop=V10
//verif:use ctFrameBuffer ctSlice ctNextStartCode
//verif:inv invSlices
func hvPicture() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	sh, se := vs.SequenceHeader, vs.SequenceExtension
	se.chroma_format = ChromaFormat420
	vc.Assume(sh.vertical_size_value < 1<<12 && se.vertical_size_extension < 4 && sh.horizontal_size_value < 1<<12 && se.horizontal_size_extension < 4) // V01
	w, h := int(sh.horizontal_size_value+se.horizontal_size_extension<<12), int(sh.vertical_size_value+se.vertical_size_extension<<12)
	vc.Assume(w > 0 && h > 0)
	ghD = ghPictureState{vs: vs, at: p, mw: vc.IntRange("width", 1, 1<<10), mh: vc.IntRange("height", 1, 1<<10), pixel: vc.Int("pixel")}
	vc.Assume(ghD.mw == (w+15)/16)
	// each field of an interlaced sequence is whole macroblocks
	if se.progressive_sequence == 0 {
		vc.Assume(ghD.mh == (h+31)/32*2)
	} else {
		vc.Assume(ghD.mh == (h+15)/16)
	}
	vc.Assume(ghD.pixel >= 0 && ghD.pixel < 256*(ghD.mw*ghD.mh))

	f, err := vs.picture_data()

	vc.Assert(ghD.calls > 0, "a picture has a slice")
	if ghD.err != nil {
		vc.Cover("error")
		vc.Assert(err == ghD.err, "errors are returned")
		return
	}
	if vc.Len(s) < ghD.at+32 {
		vc.Cover("truncated")
		vc.Assert(err == vc.EndErr(s), "truncation yields the stream's error")
		return
	}
	vc.Cover("picture")
	next := vc.Bits(s, ghD.at, 32)
	vc.Assert(next < 0x101 || next > 0x1af, "a picture goes on as long as slices follow")
	vc.Assert(err == spNextErr(ghD.at) && vc.Pos(s) == spNextPos(ghD.at), "the stream is left at the following start code")
	vc.Assert(f != nil && f.Y[ghD.pixel] == ghD.val && f.Rect == image.Rect(0, 0, 16*ghD.mw, 16*ghD.mh), "the frame decoded is returned")
}
