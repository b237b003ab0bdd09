package video

import (
	"image"

	"github.com/32bitkid/mpeg/internal/vc"
)

// hvClamp: decoded samples are clamped.
//
//verif:harness prop=V10
func hvClamp() {
	var b block
	vc.Any("block", &b)
	var cb clampedblock
	vc.Any("clamped", &cb)
	old := b
	b.clamp(&cb)
	vc.Cover("clamped")
	j := vc.IntRange("j", 0, 63)
	v := old[j]
	vc.Assert(v <= 255 || cb[j] == 255, "samples above 255 become 255")
	vc.Assert(v >= 0 || cb[j] == 0, "negative samples become 0")
	vc.Assert(v < 0 || v > 255 || int32(cb[j]) == v, "other samples stay")
	vc.Assert(b == old, "the block itself stays")
}

// hvZero: blocks that are not coded are zero.
//
//verif:harness prop=V10
func hvZero() {
	var b block
	vc.Any("block", &b)
	b.zero()
	vc.Cover("zero")
	vc.Assert(b == block{}, "a block that is not coded is zero")
}

// spPixelOf: the sample of block i of the macroblock at column col that belongs at index j of its plane, or -1, where the
// plane starts with the rows of the macroblock and has mw macroblocks per row; field: the lines of luminance blocks
// alternate.
func pixelOf(i, col, mw int, field bool, j int) int {
	size := 16
	if i >= 4 {
		size = 8
	}
	for y := 0; y < 8; y++ {
		row, left := y, col*size
		if i < 4 {
			left += i % 2 * 8
			row = i/2*8 + y
			if field {
				row = 2*y + i/2
			}
		}
		first := row*mw*size + left
		for x := 0; x < 8; x++ {
			if vc.Case(j == first+x) {
				return 8*y + x
			}
		}
	}
	return -1
}

// hvStoreFrame, hvStoreField, hvStoreChroma: a block is stored at its pixels and nowhere else.
//
//verif:harness prop=V10
//verif:integers all
//verif:noret pixelOf store
func hvStoreFrame() { store(vc.CaseInt(vc.IntRange("i", 0, 3), 0, 3), false) }

//verif:harness prop=V10
//verif:integers all
//verif:noret pixelOf store
func hvStoreField() { store(vc.CaseInt(vc.IntRange("i", 0, 3), 0, 3), true) }

//verif:harness prop=V10
//verif:integers all
//verif:noret pixelOf store
func hvStoreChroma() {
	store(vc.CaseInt(vc.IntRange("i", 4, 5), 4, 5), vc.Case(vc.Bool("field")))
}

func store(i int, field bool) {
	mw := pick("width", 1, 1<<12, 1, 4)
	col := pick("col", 0, 1<<12, 0, 3)
	vc.Assume(col < mw)
	rows := pick("rows", 1, 1<<10, 1, 2)
	f := frameOf("frame", mw, rows)
	plane, n := f.Y, 256*(mw*rows)
	if i == 4 {
		plane, n = f.Cb, 64*(mw*rows)
	} else if i == 5 {
		plane, n = f.Cr, 64*(mw*rows)
	}
	j := vc.Int("j")
	if vc.Native() && vc.Searching() {
		j &= 1023
	}
	vc.Assume(j >= 0 && j < n)
	old := plane[j]
	other := vc.Int("other")
	if vc.Native() && vc.Searching() {
		other &= 511
	}
	vc.Assume(other >= 0 && other < 64*(mw*rows))
	y, cb, cr := f.Y[other], f.Cb[other], f.Cr[other]
	var b clampedblock
	vc.Any("block", &b)
	updateFrameSlice(i, col, field, f, &b)
	if k := pixelOf(i, col, mw, field, j); k >= 0 {
		vc.Cover("inside")
		vc.Assert(plane[j] == b[k], "the pixels of a block are those that its address, index and mode dictate")
	} else {
		vc.Cover("outside")
		vc.Assert(plane[j] == old, "every other pixel keeps its value")
	}
	vc.Assert(i < 4 || f.Y[other] == y, "every other plane keeps its values")
	vc.Assert(i == 4 || f.Cb[other] == cb, "every other plane keeps its values")
	vc.Assert(i == 5 || f.Cr[other] == cr, "every other plane keeps its values")
}

// hvCopyLuma, hvCopyCb, hvCopyCr: skipped macroblocks of P pictures are copies.
//
//verif:harness prop=V10
//verif:integers all
func hvCopyLuma() { copied(0, 16) }

//verif:harness prop=V10
//verif:integers all
func hvCopyCb() { copied(1, 8) }

//verif:harness prop=V10
//verif:integers all
func hvCopyCr() { copied(2, 8) }

func copied(c, size int) {
	mw, mh := pick("width", 1, 1<<8, 1, 40), pick("height", 1, 1<<10, 1, 3)
	row, col, n := pick("row", 0, 1<<10, 0, 2), pick("col", 0, 1<<8, 0, 3), pick("n", 0, 1<<8, 0, 40)
	vc.Assume(row < mh && col+n <= mw)
	dest := frameOf("dest", mw, mh-row)
	planes := func(f *image.YCbCr) []byte {
		if c == 0 {
			return f.Y
		} else if c == 1 {
			return f.Cb
		}
		return f.Cr
	}
	// an arbitrary pixel: in one of the rows of the macroblocks, or below
	y := vc.CaseInt(vc.IntRange("y", 0, size), 0, size)
	x := vc.Int("x")
	if vc.Native() && vc.Searching() {
		x &= 1023
	}
	j := y*(mw*size) + x
	vc.Assume(x >= 0 && x < 1<<40 && (y == size || x < mw*size) && j < len(planes(dest)))
	old := planes(dest)[j]
	var src *image.YCbCr
	if vc.Case(vc.Bool("past")) {
		src = frameOf("src", mw, mh)
	}
	err := pframe_copy_macroblocks(row, col, n, dest, src)
	if src == nil {
		vc.Cover("missing")
		vc.Assert(err != nil && planes(dest)[j] == old, "a missing reference frame is an error")
		return
	}
	vc.Assert(err == nil, "skipped macroblocks are no error")
	if y < size && vc.Case(x >= col*size) && vc.Case(x < (col+n)*size) {
		vc.Cover("copied")
		vc.Assert(planes(dest)[j] == planes(src)[row*size*(mw*size)+j], "skipped macroblocks are copies of the past reference frame")
	} else {
		vc.Cover("others")
		vc.Assert(planes(dest)[j] == old, "nothing else is written")
	}
}

// hvFrameBuffer: the size of frames.
//
//verif:harness prop=V10
//verif:integers all
func hvFrameBuffer() {
	w, h := pick("width", 1, 1<<15-1, 1, 64), pick("height", 1, 1<<15-1, 1, 64)
	f := createFrameBuffer(w, h, ChromaFormat420)
	mw, mh := f.Rect.Max.X/16, f.Rect.Max.Y/16
	vc.Cover("frame")
	vc.Assert(f.Rect.Min.X == 0 && f.Rect.Min.Y == 0 && f.Rect.Max.X == 16*mw && f.Rect.Max.Y == 16*mh, "a frame is whole macroblocks")
	vc.Assert(16*mw >= w && 16*mw < w+16 && 16*mh >= h && 16*mh < h+16, "a frame is as many macroblocks as its size needs")
	vc.Assert(f.YStride == 16*mw && f.CStride == 8*mw && f.SubsampleRatio == image.YCbCrSubsampleRatio420, "a frame is 4:2:0")
	vc.Assert(len(f.Y) == 256*(mw*mh) && len(f.Cb) == 64*(mw*mh) && len(f.Cr) == 64*(mw*mh), "a frame holds every sample of its macroblocks")
}

// What is observed of the pixels stored for macroblocks: sample k of block i of the macroblock at column addr.
type ghPixels struct {
	i, addr, k int
	// where and how macroblocks are predicted and stored
	row, lo, hi int
	mvd         motionVectorData
	fs          frameStore
	dest        *image.YCbCr
	field       bool
	// the sample predicted, how often it was stored, and as what
	before, sum int32
	stored      int
	val         uint8
	err         error
}

var ghP ghPixels

func spPredictionFails(addr, i int) bool { return vc.UFBool("v.pbad", uint64(addr), uint64(i)) }
func spPredicted(addr, i, k int) int32 {
	return int32(vc.UFU32("v.pred", uint64(addr), uint64(i), uint64(k)))
}

// ctPrediction: V09.
//
//verif:contract for=(*block).motion_compensation
func ctPrediction(b *block, mvd motionVectorData, i, mb_row, mb_addr int, fs frameStore) error {
	vc.Assert(mvd == ghP.mvd, "predictions use the vectors of the macroblock")
	vc.Assert(fs == ghP.fs, "predictions use the reference frames of the picture")
	vc.Assert(mb_row == ghP.row && mb_addr >= ghP.lo && mb_addr < ghP.hi && i >= 0 && i < 6, "predictions are formed where the macroblock is")
	if spPredictionFails(mb_addr, i) {
		e := vc.UFErr("v.perr", uint64(mb_addr), uint64(i))
		vc.Assume(e != nil)
		ghP.err = e
		return e
	}
	k := ghP.k
	ghP.before = b[k]
	for j := 0; j < 64; j++ {
		b[j] += spPredicted(mb_addr, i, j)
	}
	ghP.sum = b[k]
	return nil
}

func spClamp(v int32) uint8 {
	if v > 255 {
		return 255
	} else if v < 0 {
		return 0
	}
	return uint8(v)
}

// ctStore: hvStoreFrame, hvStoreField and hvStoreChroma.
//
//verif:contract for=updateFrameSlice
func ctStore(i, mb_address int, field bool, dest *image.YCbCr, cb *clampedblock) {
	vc.Assert(dest == ghP.dest && field == ghP.field, "blocks are stored in the frame, in the order of their lines")
	vc.Assert(mb_address >= ghP.lo && mb_address < ghP.hi && i >= 0 && i < 6, "blocks are stored where the macroblock is")
	if i == ghP.i && mb_address == ghP.addr {
		ghP.stored++
		ghP.val = cb[ghP.k]
	}
}

//verif:loop for=bframe_copy_macroblocks n=1
func invSkipped() {
	mb_addr := ghP.lo + vc.Iter()
	vc.Inv(mb_addr >= ghP.lo && mb_addr <= ghP.hi && ghP.err == nil, "macroblocks are skipped in order")
	vc.Inv(ghP.stored == spStored(ghP.addr, ghP.lo, mb_addr), "every block is stored once")
	vc.Inv(ghP.stored == 0 || ghP.val == spClamp(spPredicted(ghP.addr, ghP.i, ghP.k)), "the prediction is stored")
	vc.Dec(uint64(ghP.hi - mb_addr))
}

func spStored(addr, lo, hi int) int {
	if addr >= lo && addr < hi {
		return 1
	}
	return 0
}

// hvSkipped: skipped macroblocks of B pictures.
//
//verif:harness prop=V10
//verif:use ctPrediction ctStore
//verif:inv invSkipped
func hvSkipped() {
	if vc.Native() {
		return
	}
	row, col, n := vc.IntRange("row", 0, 1<<12), vc.IntRange("col", 0, 1<<12), vc.IntRange("n", 0, 1<<12)
	ghP = ghPixels{i: vc.IntRange("i", 0, 5), addr: vc.IntRange("addr", 0, 1<<13), k: vc.IntRange("k", 0, 63), row: row, lo: col, hi: col + n, dest: &image.YCbCr{}}
	vc.Any("vectors", &ghP.mvd)
	ghP.fs = frameStore{past: &image.YCbCr{}, future: &image.YCbCr{}}
	err := bframe_copy_macroblocks(row, col, n, ghP.mvd, ghP.fs, ghP.dest)
	vc.Assert(err == ghP.err, "only a prediction that fails is an error")
	if err != nil {
		vc.Cover("error")
		return
	}
	vc.Cover("skipped")
	vc.Assert(ghP.stored == spStored(ghP.addr, col, col+n), "every block of the skipped macroblocks is stored, once")
	vc.Assert(ghP.stored == 0 || ghP.val == spClamp(spPredicted(ghP.addr, ghP.i, ghP.k)), "skipped macroblocks are their prediction")
}
