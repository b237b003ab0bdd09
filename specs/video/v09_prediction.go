package video

import (
	"image"

	"github.com/32bitkid/mpeg/internal/vc"
)

// pick is an arbitrary number in [lo, hi]; searches for failing inputs keep to [slo, shi].
func pick(name string, lo, hi, slo, shi int) int {
	if vc.Native() && vc.Searching() {
		return vc.IntRange(name, slo, shi)
	}
	return vc.IntRange(name, lo, hi)
}

// frameOf is an arbitrary frame of mw by mh macroblocks.
func frameOf(name string, mw, mh int) *image.YCbCr {
	return &image.YCbCr{
		Y: vc.ByteSlice(name+".Y", 256*(mw*mh)), Cb: vc.ByteSlice(name+".Cb", 64*(mw*mh)), Cr: vc.ByteSlice(name+".Cr", 64*(mw*mh)),
		YStride: 16 * mw, CStride: 8 * mw,
		SubsampleRatio: image.YCbCrSubsampleRatio420,
		Rect:           image.Rect(0, 0, 16*mw, 16*mh),
	}
}

// spPrediction: where the prediction of a block begins in a plane, in whole samples, and which half samples it needs.
type spPrediction struct {
	x, y   int
	hh, hv bool
	inside bool
	from   int
	stride int
	active bool
}

func predict(active bool, i, row, col, mw, mh, horizontal, vertical int) (p spPrediction) {
	p.active = active
	bx, by, size := col*16+i%2*8, row*16+i/2*8, 16
	if i >= 4 {
		// chrominance: half the vector, toward zero
		horizontal /= 2
		vertical /= 2
		bx, by, size = col*8, row*8, 8
	}
	if !active {
		return
	}
	p.hh, p.hv = vc.Case(horizontal&1 == 1), vc.Case(vertical&1 == 1)
	p.x, p.y = bx+horizontal>>1, by+vertical>>1
	right, bottom := p.x+7, p.y+7
	if p.hh {
		right++
	}
	if p.hv {
		bottom++
	}
	p.inside = vc.Case(p.x >= 0) && vc.Case(right < mw*size) && vc.Case(p.y >= 0) && vc.Case(bottom < mh*size)
	p.stride = mw * size
	p.from = p.y*p.stride + p.x
	return
}

// sampleAt: the predicted sample at u, v.
func sampleAt(p spPrediction, plane []byte, u, v int) int32 {
	i := p.from + v*p.stride + u
	if p.hh && p.hv {
		return (int32(plane[i]) + int32(plane[i+1]) + int32(plane[i+p.stride]) + int32(plane[i+p.stride+1]) + 2) / 4
	}
	if p.hh {
		return (int32(plane[i]) + int32(plane[i+1]) + 1) / 2
	}
	if p.hv {
		return (int32(plane[i]) + int32(plane[i+p.stride]) + 1) / 2
	}
	return int32(plane[i])
}

func planeOf(f *image.YCbCr, i int) []byte {
	if i < 4 {
		return f.Y
	} else if i == 4 {
		return f.Cb
	}
	return f.Cr
}

// hvPrediction0 to 5: the prediction added to each block of a macroblock.
//
//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction0() { prediction(0) }

//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction1() { prediction(1) }

//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction2() { prediction(2) }

//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction3() { prediction(3) }

//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction4() { prediction(4) }

//verif:harness prop=V09
//verif:integers
//verif:noret motion_compensation predict inside prediction
func hvPrediction5() { prediction(5) }

func prediction(i int) {
	row, col := pick("row", 0, 1<<12, 0, 2), pick("col", 0, 1<<12, 0, 2)
	mw, mh := pick("width", 1, 1<<8, 1, 4), pick("height", 1, 1<<12, 1, 4)
	mvd := motionVectorData{}
	var v [2][2]int
	v[0] = [2]int{pick("forward horizontal", -1<<13, 1<<13, -40, 40), pick("forward vertical", -1<<13, 1<<13, -40, 40)}
	v[1] = [2]int{pick("backward horizontal", -1<<13, 1<<13, -40, 40), pick("backward vertical", -1<<13, 1<<13, -40, 40)}
	mvd.actual[0] = v
	kind := vc.CaseInt(vc.IntRange("kind", 0, 3), 0, 3)
	mvd.previous = motionVectorsFormed(kind)
	var fs frameStore
	if vc.Case(vc.Bool("past")) {
		fs.past = frameOf("past", mw, mh)
	}
	if vc.Case(vc.Bool("future")) {
		fs.future = frameOf("future", mw, mh)
	}
	f := predict(kind&1 != 0 && fs.past != nil, i, row, col, mw, mh, v[0][0], v[0][1])
	fOut := f.active && !f.inside
	b := predict(!fOut && kind&2 != 0 && fs.future != nil, i, row, col, mw, mh, v[1][0], v[1][1])
	var blk block
	vc.Any("block", &blk)
	old := blk
	err := blk.motion_compensation(mvd, i, row, col, fs)
	if fOut || b.active && !b.inside {
		vc.Cover("outside")
		vc.Assert(err == ErrInvalidMotionVector && blk == old, "vectors outside the reference frame are an error")
		return
	}
	vc.Cover("inside")
	vc.Assert(err == nil, "vectors inside the reference frame are no error")
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			pel := int32(0)
			if f.active {
				pel += sampleAt(f, planeOf(fs.past, i), x, y)
			}
			if b.active {
				pel += sampleAt(b, planeOf(fs.future, i), x, y)
			}
			if f.active && b.active {
				pel = (pel + 1) >> 1
			}
			vc.Assert(blk[8*y+x] == old[8*y+x]+pel, "the prediction is added to the block")
		}
	}
}
