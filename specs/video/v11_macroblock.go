package video

import (
	"image"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// Stages of decoding a macroblock: what has been decoded last.
const (
	mbStart = iota
	mbIncrement
	mbType
	mbForward
	mbBackward
	mbPattern
	mbBlocks
)

// Stages of decoding a block.
const (
	blNone = iota
	blRead
	blDequantised
	blTransformed
	blPredicted
)

// What has been decoded of a macroblock. Elements decoded by functions of their own may end anywhere after their
// beginning, and have any value.
type ghMacroblock struct {
	vs     *VideoSequence
	row    int
	addr   int    // of the macroblock before
	p      uint64 // where the macroblock begins
	escape int    // index of an escape observed
	n      int    // escapes
	stage  int
	at     uint64 // what has been decoded so far
	p1     uint64 // where the increment begins
	inc    int    // of the increment's code word, without escapes
	mt     MacroblockType
	cbp    int
	qsc    uint32 // before the macroblock
	err    error

	pcopy, bcopy, resets int
	dcp                  *dcDctPredictors
	mvdp                 *motionVectorData
	mvd                  motionVectorData // the vectors expected
	frame                *image.YCbCr
	copyErr              error

	block int // blocks done
	bl    int // stage of the block
	blAt  uint64
	value int32 // of the block
	k     int
}

var ghX ghMacroblock

func spIncrement() int      { return ghX.inc + 33*ghX.n }
func spAddress() int        { return ghX.addr + spIncrement() }
func spSkips() bool         { return ghX.addr != -1 && spIncrement() > 1 }
func spPictureType() uint32 { return uint32(ghX.vs.PictureHeader.picture_coding_type) }
func spFramePicture() bool {
	return ghX.vs.PictureCodingExtension.picture_structure == PictureStructure_FramePicture
}
func spFramePrediction() bool { return ghX.vs.PictureCodingExtension.frame_pred_frame_dct != 0 }
func spConcealment() bool {
	return ghX.mt.macroblock_intra && ghX.vs.PictureCodingExtension.concealment_motion_vectors
}

// spMotionTypeBits, spDCTTypeBits, spQuantBits: the elements after the type.
func spMotionTypeBits() uint64 {
	return vc.Ite64((ghX.mt.macroblock_motion_forward || ghX.mt.macroblock_motion_backward) && !(spFramePicture() && spFramePrediction()), 2, 0)
}
func spDCTTypeBits() uint64 {
	return vc.Ite64(spFramePicture() && !spFramePrediction() && (ghX.mt.macroblock_intra || ghX.mt.macroblock_pattern), 1, 0)
}
func spQuantBits() uint64 { return vc.Ite64(ghX.mt.macroblock_quant, 5, 0) }

func spWantsForward() bool { return ghX.mt.macroblock_motion_forward || spConcealment() }

// spNextElement: where the elements after those decoded by functions of their own end.
func spNextElement() uint64 {
	r := ghX.at
	if ghX.stage == mbType {
		r += spMotionTypeBits() + spDCTTypeBits() + spQuantBits()
	}
	return r
}

// spMarked: behind the marker of concealment vectors.
func spMarked() uint64 {
	return spNextElement() + vc.Ite64(ghX.stage < mbPattern && spConcealment(), 1, 0)
}

// spStageBefore is true if the elements before the given one have been decoded.
func spStageBefore(stage int) bool {
	want := mbType
	if stage > mbForward && spWantsForward() {
		want = mbForward
	}
	if stage > mbBackward && ghX.mt.macroblock_motion_backward {
		want = mbBackward
	}
	if stage > mbPattern && ghX.mt.macroblock_pattern {
		want = mbPattern
	}
	return ghX.stage == want
}

// addressIncrement stands for the decoder of the increments (V04).
func addressIncrement(br bitreader.BitReader) (int, error) {
	vc.Assert(ghX.stage == mbStart && ghX.err == nil, "the elements of a macroblock are decoded in order")
	ghX.p1 = vc.Pos(br)
	vc.Assert(vc.Bits(ghS, ghX.p1, 11) != 8, "every escape is consumed")
	vc.Assert(ghX.p1 == ghX.p+11*uint64(ghX.n) && (ghX.escape >= ghX.n || vc.Bits(ghS, ghX.p+11*uint64(ghX.escape), 11) == 8), "only escapes are consumed")
	if vc.UFBool("v.incbad", 0) {
		ghX.err = vc.UFErr("v.incerr", 0)
		vc.Assume(ghX.err != nil)
		return 0, ghX.err
	}
	end, inc := vc.UF("v.incend", 0), vc.UFInt("v.inc", 0)
	vc.Assume(end > ghX.p1 && end <= vc.Len(br) && inc >= 1 && inc <= 33)
	ghX.stage, ghX.at, ghX.inc = mbIncrement, end, inc
	vc.SetPos(br, end)
	return inc, nil
}

// macroblockTypeOf stands for the decoders of macroblock types (V04).
func macroblockTypeOf(t uint32) macroblockTypeDecoderFn {
	return func(br bitreader.BitReader) (*MacroblockType, error) {
		vc.Assert(ghX.stage == mbIncrement && ghX.err == nil && vc.Pos(br) == ghX.at, "the elements of a macroblock are decoded in order")
		vc.Assert(t == spPictureType(), "the type of a macroblock uses the table of the picture's type")
		if vc.UFBool("v.mtbad", 0) {
			ghX.err = vc.UFErr("v.mterr", 0)
			vc.Assume(ghX.err != nil)
			return nil, ghX.err
		}
		end := vc.UF("v.mtend", 0)
		vc.Assume(end > ghX.at && end <= vc.Len(br))
		ghX.stage, ghX.at = mbType, end
		vc.SetPos(br, end)
		// 7.6.3.4
		if t == 2 && spIncrement() > 1 || ghX.mt.macroblock_intra && !spConcealment() || t == 2 && !ghX.mt.macroblock_intra && !ghX.mt.macroblock_motion_forward {
			ghX.mvd.predictions = motionVectorPredictions{}
			ghX.mvd.actual = motionVectors{}
		}
		r := ghX.mt
		return &r, nil
	}
}

// ctVectors: V08.
//
//verif:contract for=(*VideoSequence).motion_vectors
func ctVectors(vs *VideoSequence, s int, mb *Macroblock, mvd *motionVectorData) error {
	at := spNextElement()
	vc.Assert(vs == ghX.vs && vc.Pos(vs) == at && ghX.err == nil, "the elements of a macroblock are decoded in order")
	if s == 0 {
		vc.Assert(spWantsForward() && spStageBefore(mbForward), "forward vectors are decoded if the type has them, or for concealment")
	} else {
		vc.Assert(s == 1 && ghX.mt.macroblock_motion_backward && spStageBefore(mbBackward), "backward vectors are decoded if the type has them, after the forward ones")
	}
	vc.Assert(mvd == ghX.mvdp && *mvd == ghX.mvd, "the predictions of vectors are reset when they have to be, and only then")
	vc.Assert(*mb.macroblock_type == ghX.mt, "vectors are decoded for the macroblock's type")
	vc.Assert(mb.frame_motion_type == spFrameMotionType() && mb.field_motion_type == spFieldMotionType(), "vectors are decoded for the macroblock's motion type")
	if vc.UFBool("v.mvbad", uint64(s)) {
		ghX.err = vc.UFErr("v.mverr", uint64(s))
		vc.Assume(ghX.err != nil)
		return ghX.err
	}
	end := vc.UF("v.mvend", uint64(s))
	vc.Assume(end >= at && end <= vc.Len(vs))
	if s == 0 {
		ghX.stage = mbForward
		ghX.mvd.predictions[0][0][0] = vc.UFInt("v.mv", 0)
		ghX.mvd.actual[0][0][1] = vc.UFInt("v.mv", 1)
	} else {
		ghX.stage = mbBackward
		ghX.mvd.predictions[0][1][1] = vc.UFInt("v.mv", 2)
		ghX.mvd.actual[0][1][0] = vc.UFInt("v.mv", 3)
	}
	*mvd = ghX.mvd
	ghX.at = end
	vc.SetPos(vs, end)
	return nil
}

// The elements right after the type.
func spTypeEnd() uint64 { return vc.UF("v.mtend", 0) }
func spFrameMotionType() uint32 {
	if spFramePicture() && spMotionTypeBits() == 2 {
		return uint32(vc.Bits(ghS, spTypeEnd(), 2))
	}
	return 0
}
func spFieldMotionType() uint32 {
	if !spFramePicture() && spMotionTypeBits() == 2 {
		return uint32(vc.Bits(ghS, spTypeEnd(), 2))
	}
	return 0
}

// ctPattern: V04.
//
//verif:contract for=decodeCpb
func ctPattern(br bitreader.BitReader) (codedBlockPattern, error) {
	vc.Assert(ghX.err == nil && ghX.mt.macroblock_pattern && spStageBefore(mbPattern) && vc.Pos(br) == spMarked(), "a pattern is decoded if the type has it, in order")
	if vc.UFBool("v.cbpbad", 0) {
		ghX.err = vc.UFErr("v.cbperr", 0)
		vc.Assume(ghX.err != nil)
		return 0, ghX.err
	}
	end := vc.UF("v.cbpend", 0)
	vc.Assume(end > vc.Pos(br) && end <= vc.Len(br))
	ghX.stage, ghX.at = mbPattern, end
	vc.SetPos(br, end)
	return codedBlockPattern(ghX.cbp), nil
}

// ctCopyP, ctCopyB: V10.
//
//verif:contract for=pframe_copy_macroblocks
func ctCopyP(row, col, n int, dest, src *image.YCbCr) error {
	ghX.pcopy++
	vc.Assert(ghX.stage == mbIncrement && spSkips() && row == ghX.row && col == ghX.addr+1 && n == spIncrement()-1 && dest == ghX.frame && src == ghX.vs.frameStore.past, "the macroblocks skipped in a P picture are copied from the past frame")
	ghX.copyErr = vc.UFErr("v.copyerr", 0)
	return ghX.copyErr
}

//verif:contract for=bframe_copy_macroblocks
func ctCopyB(row, col, n int, mvd motionVectorData, fs frameStore, dest *image.YCbCr) error {
	ghX.bcopy++
	vc.Assert(ghX.stage == mbIncrement && spSkips() && row == ghX.row && col == ghX.addr+1 && n == spIncrement()-1 && dest == ghX.frame && fs == ghX.vs.frameStore && mvd == *ghX.mvdp && mvd == ghX.mvd, "the macroblocks skipped in a B picture are predicted as the macroblock before")
	ghX.copyErr = vc.UFErr("v.copyerr", 0)
	return ghX.copyErr
}

// spCoded is true if block i is coded.
func spCoded(i int) bool {
	return ghX.mt.macroblock_intra || ghX.mt.macroblock_pattern && ghX.cbp>>uint(5-i)&1 == 1
}

func spComponent(i int) int {
	if i < 4 {
		return 0
	}
	return i - 3
}

// spResets: the DC predictors have to be reset.
func spResets() bool { return spIncrement() > 1 || !ghX.mt.macroblock_intra }

// spResetsRight: at the start of a slice they have been reset already.
func spResetsRight() bool {
	return (ghX.resets > 0) == spResets() || ghX.addr == -1 && ghX.mt.macroblock_intra
}

func spQuantiser() uint32 {
	if ghX.mt.macroblock_quant {
		return uint32(vc.Bits(ghS, spTypeEnd()+spMotionTypeBits()+spDCTTypeBits(), 5))
	}
	return ghX.qsc
}

// ctBlock: V05.
//
//verif:contract for=(*block).read
func ctBlock(b *block, br bitreader.BitReader, dcp *dcDctPredictors, format uint32, cc int, intra bool) error {
	i := ghX.block
	vc.Assert(ghX.err == nil && (ghX.stage == mbBlocks || spStageBefore(mbBlocks)) && i < 6 && spCoded(i) && ghX.bl == blNone, "the coded blocks of a macroblock are decoded, in order")
	vc.Assert(vc.Pos(br) == spMarked2(), "the coded blocks follow the elements of the macroblock")
	vc.Assert(dcp == ghX.dcp && format == ghX.vs.PictureCodingExtension.intra_vlc_format && cc == spComponent(i) && intra == ghX.mt.macroblock_intra, "a block is decoded for its component, and the macroblock's type")
	vc.Assert(spResetsRight(), "the DC predictors are reset when they have to be, and only then")
	p := vc.Pos(br)
	if vc.UFBool("v.blbad", uint64(i)) {
		ghX.err = vc.UFErr("v.blerr", uint64(i))
		vc.Assume(ghX.err != nil)
		return ghX.err
	}
	end := vc.UF("v.blend", uint64(i))
	vc.Assume(end > p && end <= vc.Len(br))
	ghX.stage, ghX.at, ghX.bl = mbBlocks, end, blRead
	vc.SetPos(br, end)
	for j := 0; j < 64; j++ {
		b[j] = int32(vc.UFU32("v.coef", uint64(i), uint64(j)))
	}
	return nil
}

// spMarked2: where the next block begins.
func spMarked2() uint64 {
	if ghX.stage == mbBlocks {
		return ghX.at
	}
	return spMarked()
}

// ctDequantise: V06.
//
//verif:contract for=(*block).decode_block
func ctDequantise(b *block, vs *VideoSequence, cc int, qsc uint32, intra bool) {
	i := ghX.block
	vc.Assert(ghX.bl == blRead && b[ghX.k] == int32(vc.UFU32("v.coef", uint64(i), uint64(ghX.k))), "the coefficients of a block are dequantised")
	vc.Assert(vs == ghX.vs && cc == spComponent(i) && qsc == spQuantiser() && intra == ghX.mt.macroblock_intra, "a block is dequantised for its component, with the current quantiser scale")
	ghX.bl = blDequantised
	for j := 0; j < 64; j++ {
		b[j] = int32(vc.UFU32("v.deq", uint64(i), uint64(j)))
	}
}

// ctTransform: V07.
//
//verif:contract for=(*block).idct
func ctTransform(b *block) {
	i := ghX.block
	vc.Assert(ghX.bl == blDequantised && b[ghX.k] == int32(vc.UFU32("v.deq", uint64(i), uint64(ghX.k))), "the dequantised coefficients of a block are transformed")
	ghX.bl = blTransformed
	for j := 0; j < 64; j++ {
		b[j] = int32(vc.UFU32("v.idct", uint64(i), uint64(j)))
	}
}

// ctPredict: V09.
//
//verif:contract for=(*block).motion_compensation
func ctPredict(b *block, mvd motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
	k := ghX.k
	vc.Assert(ghX.err == nil && i == ghX.block && mb_row == ghX.row && mb_addr == spAddress() && fs == ghX.vs.frameStore, "every block is predicted where it is")
	vc.Assert(ghX.stage == mbBlocks || spStageBefore(mbBlocks), "the elements of a macroblock are decoded in order")
	vc.Assert(mvd == spVectors(), "every block is predicted with the vectors of the macroblock")
	if spCoded(i) {
		vc.Assert(ghX.bl == blTransformed && b[k] == int32(vc.UFU32("v.idct", uint64(i), uint64(k))), "predictions are added to the transformed blocks")
	} else {
		vc.Assert(ghX.bl == blNone && b[k] == 0, "blocks that are not coded are zero")
	}
	if spPredictionFails(0, i) {
		ghX.err = vc.UFErr("v.perr", 0, uint64(i))
		vc.Assume(ghX.err != nil)
		return ghX.err
	}
	ghX.bl = blPredicted
	for j := 0; j < 64; j++ {
		b[j] += spPredicted(0, i, j)
	}
	ghX.value = b[k]
	return nil
}

// spVectors: the vectors, with the directions of the macroblock (7.6.3.5).
func spVectors() motionVectorData {
	r := ghX.mvd
	r.previous = 0
	if !ghX.mt.macroblock_intra {
		if ghX.mt.macroblock_motion_forward || spPictureType() == 2 && !ghX.mt.macroblock_motion_backward {
			r.previous |= motionVectorsFormed_FrameForward
		}
		if ghX.mt.macroblock_motion_backward {
			r.previous |= motionVectorsFormed_FrameBackward
		}
	}
	return r
}

// ctClamp: hvClamp.
//
//verif:contract for=(*block).clamp
func ctClamp(b *block, cb *clampedblock) {
	for j := 0; j < 64; j++ {
		cb[j] = spClamp(b[j])
	}
}

// ctStoreBlock: V10.
//
//verif:contract for=updateFrameSlice
func ctStoreBlock(i, mb_address int, field bool, dest *image.YCbCr, cb *clampedblock) {
	vc.Assert(i == ghX.block && ghX.bl == blPredicted && mb_address == spAddress() && dest == ghX.frame, "every block is stored where it is")
	vc.Assert(field == (spDCTTypeBits() == 1 && vc.Bits(ghS, spTypeEnd()+spMotionTypeBits(), 1) == 1), "blocks are stored in the order of lines that the DCT type dictates")
	vc.Assert(cb[ghX.k] == spClamp(ghX.value), "every block is stored clamped")
	ghX.bl = blNone
	ghX.block++
}

//verif:loop for=(*VideoSequence).macroblock n=1
func invEscapes(mb Macroblock) {
	k := vc.Iter()
	ghX.n = k
	vc.Inv(vc.Pos(ghS) == ghX.p+11*uint64(k) && vc.Pos(ghS) <= vc.Len(ghS), "escapes are consumed one by one")
	vc.Inv(mb.macroblock_address_increment == 33*k, "every escape adds 33 to the increment")
	vc.Inv(ghX.escape >= k || vc.Bits(ghS, ghX.p+11*uint64(ghX.escape), 11) == 8, "only escapes are consumed")
	vc.Dec(vc.Len(ghS) - vc.Pos(ghS))
}

//verif:loop for=(*VideoSequence).macroblock n=2
func invBlocks() {
	i := vc.Iter()
	vc.Inv(i == ghX.block && i >= 0 && i <= 6 && ghX.bl == blNone && ghX.err == nil, "the blocks of a macroblock are decoded in order")
	vc.Inv(ghX.stage == mbBlocks || spStageBefore(mbBlocks), "the elements of a macroblock are decoded in order")
	vc.Inv(vc.Pos(ghS) == spMarked2() && vc.Pos(ghS) <= vc.Len(ghS), "exactly the coded blocks are consumed")
	vc.Dec(uint64(6 - i))
}

// hvMacroblockI, P, B, Other: the syntax of macroblocks.
//
//verif:harness prop=V11
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvMacroblockI() { macroblock(IFrame) }

//verif:harness prop=V11
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvMacroblockP() { macroblock(PFrame) }

//verif:harness prop=V11
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvMacroblockB() { macroblock(BFrame) }

//verif:harness prop=V11
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvMacroblockOther() {
	t := PictureCodingType(vc.U32("type"))
	vc.Assume(t < 1 || t > 3)
	macroblock(t)
}

// hvStoredI, P, B: where the blocks of macroblocks are stored (V10).
//
//verif:harness prop=V10
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvStoredI() { macroblock(IFrame) }

//verif:harness prop=V10
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvStoredP() { macroblock(PFrame) }

//verif:harness prop=V10
//verif:use ctVectors ctPattern ctCopyP ctCopyB ctBlock ctDequantise ctTransform ctPredict ctClamp ctStoreBlock
//verif:inv invEscapes invBlocks
func hvStoredB() { macroblock(BFrame) }

func macroblock(t PictureCodingType) {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	ph, pe := vs.PictureHeader, vs.PictureCodingExtension
	ph.picture_coding_type = t
	vs.SequenceExtension.chroma_format = ChromaFormat420
	vs.frameStore = frameStore{past: &image.YCbCr{}, future: &image.YCbCr{}}
	mw, addr, row := vc.IntRange("width", 1, 1<<12), vc.IntRange("address", -1, 1<<12), vc.IntRange("row", 0, 1<<12)
	vc.Assume(addr < mw)
	frame := &image.YCbCr{Rect: image.Rect(0, 16*row, 16*mw, 16*row+16)}
	var dcp dcDctPredictors
	var mvd motionVectorData
	vc.Any("vectors", &mvd)
	if addr == -1 {
		// the start of a slice (hvSlice)
		mvd.predictions, mvd.actual = motionVectorPredictions{}, motionVectors{}
	}
	qsc := vc.U32("quantiser_scale_code")
	ghX = ghMacroblock{vs: vs, row: row, addr: addr, p: p, escape: vc.IntRange("escape", 0, 1<<40), cbp: vc.IntRange("pattern", 0, 63), qsc: qsc,
		dcp: &dcp, mvdp: &mvd, mvd: mvd, frame: frame, k: vc.IntRange("k", 0, 63)}
	vc.Any("macroblock type", &ghX.mt)
	mt := ghX.mt
	vc.Assume(!mt.macroblock_intra || !mt.macroblock_motion_forward && !mt.macroblock_motion_backward && !mt.macroblock_pattern) // V04
	vc.Assume(t != IFrame || mt.macroblock_intra)
	vc.Assume(t != PFrame || !mt.macroblock_motion_backward)
	vc.Assume(t != BFrame || mt.macroblock_intra || mt.macroblock_motion_forward || mt.macroblock_motion_backward)
	di, dt := macroblockAddressIncrementDecoder, macroblockTypeDecoder
	defer func() { macroblockAddressIncrementDecoder, macroblockTypeDecoder = di, dt }()
	macroblockAddressIncrementDecoder.Decode = addressIncrement
	macroblockTypeDecoder.IFrame, macroblockTypeDecoder.PFrame, macroblockTypeDecoder.BFrame = macroblockTypeOf(1), macroblockTypeOf(2), macroblockTypeOf(3)

	a, err := vs.macroblock(addr, row, &dcp, func() { ghX.resets++ }, &mvd, &qsc, frame)

	if ghX.stage >= mbIncrement && spAddress() >= mw {
		vc.Cover("outside")
		vc.Assert(err == ErrInvalidMacroblockAddress && ghX.stage == mbIncrement && ghX.pcopy+ghX.bcopy == 0, "macroblocks outside the picture are an error, and nothing is decoded")
		return
	}
	if ghX.stage >= mbIncrement && ghX.copyErr == nil && (t < 1 || t > 3) {
		vc.Cover("forbidden")
		vc.Assert(err == ErrInvalidPictureCodingType, "reserved picture types are an error")
		return
	}
	if err != nil {
		vc.Cover("error")
		if ghX.err != nil {
			vc.Assert(err == ghX.err, "errors are returned")
		} else if ghX.copyErr != nil {
			vc.Assert(err == ghX.copyErr, "errors are returned")
		} else if ghX.stage == mbStart {
			vc.Assert(err == vc.EndErr(s) && vc.Len(s) < vc.Pos(s)+11, "only a truncated macroblock is an error")
		} else if err == ErrMissingMarkerBit {
			vc.Assert(ghX.stage < mbPattern && spConcealment() && vc.Bits(s, spMarked()-1, 1) == 0 && vc.Len(s) >= spMarked(), "a marker that is missing is an error")
		} else {
			vc.Assert(err == spEOF(s) && ghX.stage >= mbType && vc.Len(s) < spMarked2(), "only a truncated macroblock is an error")
		}
		return
	}
	vc.Cover("macroblock")
	vc.Assert(ghX.err == nil && ghX.copyErr == nil, "errors are returned")
	vc.Assert(a == spAddress(), "the address advances by the increment")
	vc.Assert(vc.Pos(s) == spMarked2() && (ghX.stage == mbBlocks || spStageBefore(mbBlocks)), "exactly the elements of the macroblock are consumed")
	vc.Assert(!spConcealment() || vc.UF("v.mvend", 0) < vc.Len(s) && vc.Bits(s, vc.UF("v.mvend", 0), 1) == 1, "a marker that is missing is an error")
	vc.Assert(ghX.block == 6 && ghX.bl == blNone, "every block is predicted and stored")
	vc.Assert((spSkips() && t == PFrame) == (ghX.pcopy == 1) && ghX.pcopy <= 1, "the macroblocks skipped in a P picture are copied from the past frame")
	vc.Assert((spSkips() && t == BFrame) == (ghX.bcopy == 1) && ghX.bcopy <= 1, "the macroblocks skipped in a B picture are predicted as the macroblock before")
	vc.Assert(qsc == spQuantiser(), "the quantiser scale changes if the macroblock has one")
	vc.Assert(mvd == spVectors(), "the vectors are those of the macroblock")
	vc.Assert(spResetsRight(), "the DC predictors are reset when they have to be, and only then")
	vc.Assert(ph.picture_coding_type == t && vs.PictureHeader == ph && vs.PictureCodingExtension == pe, "the picture's parameters stay")
}
