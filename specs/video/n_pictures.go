package video

import (
	"bytes"
	"image"
	"io"

	"github.com/32bitkid/mpeg/internal/vc"
)

// Native generators of slices, pictures and sequences. Pixels are built from the block layer of the library (V05 to
// V07, V09); everything above it is built here.

type nPic struct {
	vs       *VideoSequence // decodes nothing: parameters and reference frames of the picture
	mw, mh   int
	t        PictureCodingType
	f        *image.YCbCr // the frame expected
	bad      string
	simple   bool // small vectors and few coefficients
	complete bool // every macroblock is transmitted or skipped

	// the state at the end of the last slice
	qsc      uint32
	dc       dcDctPredictors
	pmv      motionVectors
	actual   motionVectors
	previous motionVectorsFormed
}

func nFrame(mw, mh int, k ...uint64) *image.YCbCr {
	f := image.NewYCbCr(image.Rect(0, 0, 16*mw, 16*mh), image.YCbCrSubsampleRatio420)
	if len(k) > 0 {
		for p, b := range [][]byte{f.Y, f.Cb, f.Cr} {
			for i := range b {
				b[i] = byte(vc.Rnd("pixel", 256, append([]uint64{uint64(p), uint64(i)}, k...)...))
			}
		}
	}
	return f
}

func nClone(f *image.YCbCr) *image.YCbCr {
	r := *f
	r.Y, r.Cb, r.Cr = append([]byte(nil), f.Y...), append([]byte(nil), f.Cb...), append([]byte(nil), f.Cr...)
	return &r
}

func nSame(a, b *image.YCbCr) bool {
	return a != nil && b != nil && a.YStride == b.YStride && a.CStride == b.CStride && a.Rect == b.Rect && a.SubsampleRatio == b.SubsampleRatio && bytes.Equal(a.Y, b.Y) && bytes.Equal(a.Cb, b.Cb) && bytes.Equal(a.Cr, b.Cr)
}

func nParameters(structure PictureStructure, k ...uint64) *PictureCodingExtension {
	e := &PictureCodingExtension{picture_structure: structure}
	for i := 0; i < 4; i++ {
		e.f_code[i/2][i%2] = uint32(1 + vc.Rnd("f_code", 3, append([]uint64{uint64(i)}, k...)...))
	}
	e.intra_dc_precision = uint32(vc.Rnd("precision", 4, k...))
	e.frame_pred_frame_dct = uint32(vc.Rnd("frame pred", 2, k...))
	e.concealment_motion_vectors = vc.Rnd("concealment", 3, k...) == 0
	e.q_scale_type = uint32(vc.Rnd("q scale", 2, k...))
	e.intra_vlc_format = uint32(vc.Rnd("vlc", 2, k...))
	e.alternate_scan = uint32(vc.Rnd("scan", 2, k...))
	return e
}

func nPutParameters(w *nBits, e *PictureCodingExtension) {
	bit := func(b bool) {
		if b {
			w.put(1, 1)
		} else {
			w.put(0, 1)
		}
	}
	w.put(0x1b5, 32)
	w.put(8, 4)
	for i := 0; i < 4; i++ {
		w.put(uint64(e.f_code[i/2][i%2]), 4)
	}
	w.put(uint64(e.intra_dc_precision), 2)
	w.put(uint64(e.picture_structure), 2)
	w.put(0, 1)
	w.put(uint64(e.frame_pred_frame_dct), 1)
	bit(e.concealment_motion_vectors)
	w.put(uint64(e.q_scale_type), 1)
	w.put(uint64(e.intra_vlc_format), 1)
	w.put(uint64(e.alternate_scan), 1)
	w.put(0, 4)
	w.put(0, (8-w.n%8)%8)
}

// nBlockAt is where sample k of block i of a macroblock is in a plane, from the plane's first sample of the macroblock.
func nBlockAt(i, k, stride int, field bool) int {
	y, x := k/8, k%8
	if i >= 4 {
		return y*stride + x
	}
	x += i % 2 * 8
	if field {
		return (2*y+i/2)*stride + x
	}
	return (y+i/2*8)*stride + x
}

func (p *nPic) store(row, col, i int, field bool, b *block) {
	plane, stride, at := p.f.Y, p.f.YStride, 16*row*p.f.YStride+16*col
	if i >= 4 {
		plane, stride, at = p.f.Cb, p.f.CStride, 8*row*p.f.CStride+8*col
		if i == 5 {
			plane = p.f.Cr
		}
	}
	for k, v := range b {
		if v > 255 {
			v = 255
		} else if v < 0 {
			v = 0
		}
		plane[at+nBlockAt(i, k, stride, field)] = byte(v)
	}
}

func (p *nPic) reset() { p.pmv, p.actual = motionVectors{}, motionVectors{} }

func (p *nPic) resetDC() {
	for i := range p.dc {
		p.dc[i] = 128 << p.vs.PictureCodingExtension.intra_dc_precision
	}
}

func (p *nPic) mvd() motionVectorData {
	return motionVectorData{actual: p.actual, previous: p.previous}
}

func (p *nPic) fits(row, col int) bool {
	for i := 0; i < 6; i++ {
		var b block
		if b.motion_compensation(p.mvd(), i, row, col, p.vs.frameStore) != nil {
			return false
		}
	}
	return true
}

func nPutIncrement(w *nBits, inc int) {
	for ; inc > 33; inc -= 33 {
		w.put(8, 11)
	}
	for _, c := range spAddressIncrements {
		if int(c.v) == inc {
			w.put(c.c, uint(c.n))
		}
	}
}

// slice writes a slice, from its start code to its last macroblock; the error expected.
func (p *nPic) slice(w *nBits, row int, first int, key ...uint64) error {
	rnd := func(name string, n uint64, k ...uint64) uint64 { return vc.Rnd(name, n, append(k, key...)...) }
	e := p.vs.PictureCodingExtension
	w.put(0x100+uint64(row&127)+1, 32)
	if _, h := p.vs.Size(); h > 2800 {
		w.put(uint64(row>>7), 3)
	} else {
		w.n -= 8
		w.b = w.b[:w.n/8]
		w.put(uint64(row)+1, 8)
	}
	p.qsc = uint32(1 + rnd("qsc", 31))
	w.put(uint64(p.qsc), 5)
	if rnd("intra slice", 3) == 0 {
		w.put(2+rnd("intra slice flag", 2), 2)
		w.put(0, 7)
		for i := uint64(0); i < rnd("extra", 3); i++ {
			w.put(1, 1)
			w.put(rnd("extra", 256, i), 8)
		}
	}
	w.put(0, 1)
	if row >= p.mh {
		return ErrInvalidSlicePosition
	}
	p.reset()
	p.resetDC()
	p.previous = motionVectorsFormed_None
	col := -1
	intra := true
	for n := uint64(0); ; n++ {
		skip := 0
		if n == 0 {
			skip = first
		} else if rnd("skip", 3, n) == 0 {
			skip = int(rnd("skipped", 3, n))
			if rnd("run", 4, n) == 0 {
				skip = int(rnd("skipped", uint64(p.mw), n))
			}
		}
		if n > 0 && (p.t == IFrame || p.t == BFrame && intra) {
			skip = 0
		}
		if col+1+skip >= p.mw {
			skip = p.mw - col - 2
		}
		if n > 0 && skip > 0 && p.t == BFrame {
			old := p.f
			p.f = nClone(p.f) // only to find out whether the vectors fit
			for c := col + 1; c <= col+skip; c++ {
				if !p.fits(row, c) {
					skip = 0
				}
			}
			p.f = old
		}
		if p.bad == "outside" && (rnd("bad", 3, n) == 0 || col == p.mw-1) {
			nPutIncrement(w, p.mw-col+int(rnd("outside", 80)))
			w.put(1, 1)
			return ErrInvalidMacroblockAddress
		}
		nPutIncrement(w, skip+1)
		if n > 0 && skip > 0 {
			for c := col + 1; c <= col+skip; c++ {
				d := motionVectorData{previous: motionVectorsFormed_FrameForward}
				if p.t == BFrame {
					d = p.mvd()
				}
				for i := 0; i < 6; i++ {
					var b block
					if b.motion_compensation(d, i, row, c, p.vs.frameStore) != nil {
						vc.Assume(false)
					}
					p.store(row, c, i, false, &b)
				}
			}
		}
		if skip > 0 {
			p.resetDC()
			if p.t == PFrame {
				p.reset()
			}
		}
		col += 1 + skip
		// the type
		ts := spTypesI
		if p.t == PFrame {
			ts = spTypesP
		} else if p.t == BFrame {
			ts = spTypesB
		}
		c := ts[rnd("type", uint64(len(ts)), n)]
		has := func(f int64) bool { return c.v&f != 0 }
		intra = has(spIntra)
		w.put(c.c, uint(c.n))
		if (has(spForward) || has(spBackward)) && e.frame_pred_frame_dct == 0 {
			w.put(2, 2)
		}
		field := false
		if e.frame_pred_frame_dct == 0 && (intra || has(spPattern)) {
			field = rnd("dct type", 2, n) == 1
			if field {
				w.put(1, 1)
			} else {
				w.put(0, 1)
			}
		}
		if has(spQuant) {
			p.qsc = uint32(1 + rnd("qsc", 31, n, 7))
			w.put(uint64(p.qsc), 5)
		}
		if !intra {
			p.resetDC()
		}
		conceal := intra && e.concealment_motion_vectors
		if intra && !conceal || p.t == PFrame && !intra && !has(spForward) {
			p.reset()
		}
		var formed motionVectorsFormed
		if has(spForward) || p.t == PFrame && !intra && !has(spBackward) {
			formed |= motionVectorsFormed_FrameForward
		}
		if has(spBackward) {
			formed |= motionVectorsFormed_FrameBackward
		}
		p.previous = formed
		// the vectors
		for s := 0; s < 2; s++ {
			if s == 0 && !has(spForward) && !conceal || s == 1 && !has(spBackward) {
				continue
			}
			for try := uint64(0); ; try++ {
				var v [2]int
				for t := range v {
					m := 16 << (e.f_code[s][t] - 1)
					v[t] = int(rnd("v", uint64(2*m), n, uint64(s), uint64(t), try)) - m
					if try > 0 {
						v[t] /= 4
					}
					if try > 3 {
						v[t] = 0
					}
				}
				p.actual[0][s] = v
				was := p.previous
				p.previous = formed & (1 << uint(s))
				ok := p.fits(row, col)
				p.previous = was
				if ok || try > 3 {
					break
				}
			}
			for t, v := range p.actual[0][s] {
				m := 16 << (e.f_code[s][t] - 1)
				d := v - p.pmv[0][s][t]
				if d < -m {
					d += 2 * m
				} else if d > m {
					d -= 2 * m
				}
				nPutVector(w, d, e.f_code[s][t])
			}
			p.pmv[0][s], p.pmv[1][s] = p.actual[0][s], p.actual[0][s]
		}
		if conceal {
			if p.bad == "marker" {
				w.put(0, 1)
				return ErrMissingMarkerBit
			}
			w.put(1, 1)
		}
		pattern := 0
		if intra {
			pattern = 63
		} else if has(spPattern) {
			pc := spPatterns[1+rnd("pattern", 63, n)]
			w.put(pc.c, uint(pc.n))
			pattern = int(pc.v)
		}
		for i := 0; i < 6; i++ {
			var b block
			cc := 0
			if i >= 4 {
				cc = i - 3
			}
			if pattern>>uint(5-i)&1 == 1 {
				l := nBlock(append([]uint64{n, uint64(i)}, key...)...)
				if p.simple {
					for j := 2; j < 64; j++ {
						l[j] = 0
					}
				}
				for j := range l {
					// small levels
					l[j] %= 64
				}
				if intra {
					max := int32(256) << e.intra_dc_precision
					l[0] = p.dc[cc] + int32(rnd("diff", 401, n, uint64(i))) - 200
					if l[0] < 0 {
						l[0] = 0
					} else if l[0] >= max {
						l[0] = max - 1
					}
				} else if l == [64]int32{} {
					l[rnd("at", 64, n)%7] = 5
				}
				nPutBlock(w, &l, intra, intra && e.intra_vlc_format == 1, cc != 0, p.dc[cc], append([]uint64{n, uint64(i)}, key...)...)
				if intra {
					p.dc[cc] = l[0]
				}
				for j := range l {
					b[j] = l[j]
				}
				b.decode_block(p.vs, cc, p.qsc, intra)
				b.idct()
			}
			if b.motion_compensation(p.mvd(), i, row, col, p.vs.frameStore) != nil {
				vc.Assume(false)
			}
			p.store(row, col, i, field, &b)
		}
		if col == p.mw-1 || !p.complete && p.bad != "outside" && rnd("end", 4, n) == 0 {
			if p.bad == "outside" {
				continue
			}
			return nil
		}
	}
}

func nSequence(mw, mh int) *VideoSequence {
	vs := &VideoSequence{}
	vs.SequenceHeader = &SequenceHeader{horizontal_size_value: uint32(16*mw) - uint32(vc.Rnd("right", 16)), vertical_size_value: uint32(16*mh) - uint32(vc.Rnd("bottom", 16))}
	vs.SequenceExtension = &SequenceExtension{chroma_format: ChromaFormat420, progressive_sequence: 1}
	if mh%2 == 0 {
		vs.SequenceExtension.progressive_sequence = uint32(vc.Rnd("progressive", 2))
		if vs.SequenceExtension.progressive_sequence == 0 {
			vs.SequenceHeader.vertical_size_value = uint32(16*mh) - uint32(vc.Rnd("bottom", 32))
		}
	}
	for i := range vs.quantisationMatricies {
		for k := 0; k < 64; k++ {
			vs.quantisationMatricies[i][k/8][k%8] = uint8(8 + vc.Rnd("weight", 40, uint64(i), uint64(k)))
		}
	}
	return vs
}

//verif:harness prop=V10 native=only
//verif:search 3000
func hnSlicesV10() { nSlices() }

//verif:harness prop=V11 native=only
//verif:search 3000
func hnSlicesV11() { nSlices() }

func nSlices() {
	if !vc.Native() {
		return
	}
	mw, mh := 1+int(vc.Rnd("width", 5)), 1+int(vc.Rnd("height", 4))
	tall := vc.Rnd("tall", 12) == 0
	if vc.Rnd("wide", 12) == 0 {
		mw += 70
	}
	if tall {
		mw, mh = 1, 180
	}
	vs := nSequence(mw, mh)
	t := PictureCodingType(1 + vc.Rnd("picture", 3))
	vs.PictureHeader = &PictureHeader{picture_coding_type: t}
	vs.PictureCodingExtension = nParameters(PictureStructure_FramePicture)
	vs.frameStore = frameStore{past: nFrame(mw, mh, 1), future: nFrame(mw, mh, 2)}
	p := &nPic{vs: vs, mw: mw, mh: mh, t: t, bad: []string{"", "", "", "", "outside", "marker", "row", "cut", "missing"}[vc.Rnd("bad", 9)]}
	whole := vc.Rnd("whole", 2) == 0
	if whole {
		p.f = nFrame(mw, mh)
	} else {
		p.f = nFrame(mw, mh, 3)
	}
	got := nClone(p.f)
	past, future := nClone(vs.frameStore.past), nClone(vs.frameStore.future)
	w := &nBits{}
	var want error
	var ends []uint
	for i, row := uint64(0), 0; i < 8 && want == nil; i++ {
		if p.bad == "row" && vc.Rnd("row", 3, i) == 0 {
			row = mh + int(vc.Rnd("beyond", 4, i))
			if row > 174 && !tall {
				row = 174
			}
		}
		if tall {
			row += int(vc.Rnd("down", 60, i))
			if p.bad != "row" && row >= mh {
				break
			}
		}
		want = p.slice(w, row, int(vc.Rnd("first", uint64(mw), i))*int(vc.Rnd("at first", 2, i)), i)
		w.put(0, 24)
		w.put(0, (8-w.n%8)%8)
		ends = append(ends, w.n)
		row += int(vc.Rnd("next", 3, i))
		if row >= mh {
			break
		}
	}
	w.put(0x1b7, 32)
	w.put(0x5a, 8)
	b := w.b
	cut := p.bad == "cut"
	if cut {
		b = b[:vc.Rnd("cut", uint64(len(b)-12))]
	}
	d := *vs
	d.BitReader = nReader(b, io.EOF)
	if p.bad == "missing" {
		d.frameStore = frameStore{}
	}
	var err error
	if whole {
		var f *image.YCbCr
		f, err = d.picture_data()
		if err == nil {
			got = f
		}
	} else {
		for range ends {
			if err = d.slice(got); err != nil {
				break
			}
		}
	}
	vc.Assert(nSame(vs.frameStore.past, past) && nSame(vs.frameStore.future, future), "reference frames are not written")
	if p.bad == "missing" {
		return
	}
	if cut {
		vc.Assert(err != nil, "a picture that is cut short is an error")
		return
	}
	if want != nil {
		vc.Assert(err == want, "slices and macroblocks outside the picture, and missing markers, are an error")
		if !whole {
			vc.Assert(nSame(got, p.f), "every pixel is that of its macroblock and nothing else is written")
		}
		return
	}
	vc.Assert(err == nil, "a picture is decoded")
	vc.Assert(nSame(got, p.f), "every pixel is that of its macroblock and nothing else is written")
	v, err := d.Peek32(32)
	vc.Assert(err == nil && v == 0x1b7, "exactly the elements of the slices are consumed")
}

func nPutSequence(w *nBits, vs *VideoSequence) {
	h, e := vs.SequenceHeader, vs.SequenceExtension
	w.put(0x1b3, 32)
	w.put(uint64(h.horizontal_size_value), 12)
	w.put(uint64(h.vertical_size_value), 12)
	w.put(0x13, 8)
	w.put(1000, 18)
	w.put(1, 1)
	w.put(20, 10)
	w.put(0, 1)
	for i := 0; i < 2; i++ {
		w.put(1, 1)
		for n := 0; n < 64; n++ {
			for k := 0; k < 64; k++ {
				if int(spZigzag[k]) == n {
					w.put(uint64(vs.quantisationMatricies[i][k/8][k%8]), 8)
				}
			}
		}
	}
	w.put(0, (8-w.n%8)%8)
	w.put(0x1b5, 32)
	w.put(1, 4)
	w.put(0x44, 8)
	w.put(uint64(e.progressive_sequence), 1)
	w.put(1, 2)
	w.put(0, 16)
	w.put(1, 1)
	w.put(0, 16)
	w.put(0, (8-w.n%8)%8)
}

func nPutUserData(w *nBits, k ...uint64) {
	w.put(0x1b2, 32)
	for i := uint64(0); i < vc.Rnd("user", 5, k...); i++ {
		w.put(1+vc.Rnd("data", 255, append([]uint64{i}, k...)...), 8)
	}
}

//verif:harness prop=V12 native=only
//verif:search 3000
func hnSequence() {
	if !vc.Native() {
		return
	}
	mw, mh := 1+int(vc.Rnd("width", 2)), 1+int(vc.Rnd("height", 2))
	vs := nSequence(mw, mh)
	vs.quantisationMatricies[2], vs.quantisationMatricies[3] = vs.quantisationMatricies[0], vs.quantisationMatricies[1]
	w := &nBits{}
	var refs [2]*image.YCbCr
	var want []*image.YCbCr
	var ends []uint // where the pictures decoded end
	var need []int  // how many pictures each frame displayed needs
	decoded := 0
	for g := uint64(0); g < 1+vc.Rnd("groups", 4); g++ {
		if g == 0 || vc.Rnd("repeat", 3, g) == 0 {
			nPutSequence(w, vs)
			if vc.Rnd("user", 4, g) == 0 {
				nPutUserData(w, g)
			}
		}
		w.put(0x1b8, 32)
		w.put(vc.Rnd("time", 1<<25, g), 25)
		w.put(vc.Rnd("closed, broken", 4, g), 2)
		w.put(0, 5)
		if vc.Rnd("group user", 4, g) == 0 {
			nPutUserData(w, g, 1)
		}
		group := map[int]*image.YCbCr{}
		at := map[int]int{}
		picture := func(t PictureCodingType, ref int) {
			k := []uint64{g, uint64(ref), 1}
			w.put(0x100, 32)
			w.put(uint64(ref), 10)
			w.put(uint64(t), 3)
			w.put(0xffff, 16)
			if t != IFrame {
				w.put(7, 4)
			}
			if t == BFrame {
				w.put(7, 4)
			}
			for vc.Rnd("extra", 5, append(k, uint64(w.n))...) == 0 {
				w.put(0x155, 9)
			}
			w.put(0, 1)
			w.put(0, (8-w.n%8)%8)
			e := nParameters(PictureStructure_FramePicture, k...)
			nPutParameters(w, e)
			if vc.Rnd("picture user", 6, k...) == 0 {
				nPutUserData(w, k...)
			}
			c := *vs
			c.PictureHeader = &PictureHeader{picture_coding_type: t}
			c.PictureCodingExtension = e
			c.frameStore = frameStore{past: refs[1]}
			if t == BFrame {
				c.frameStore = frameStore{past: refs[0], future: refs[1]}
			}
			p := &nPic{vs: &c, mw: mw, mh: mh, t: t, f: nFrame(mw, mh), simple: true, complete: true}
			for row := 0; row < mh; row++ {
				p.slice(w, row, 0, append(k, uint64(row))...)
				w.put(0, (8-w.n%8)%8)
			}
			if t != BFrame {
				refs[0], refs[1] = refs[1], p.f
			}
			decoded++
			group[ref], at[ref] = p.f, decoded
			ends = append(ends, w.n)
		}
		references := vc.Rnd("references", 4, g)
		if vc.Rnd("long", 100, g) == 0 {
			references = 250
		}
		next := 0
		if g > 0 {
			next = int(vc.Rnd("open", 3, g))
		}
		picture(IFrame, next)
		for b := 0; b < next; b++ {
			picture(BFrame, b)
		}
		next++
		for i := uint64(0); i < references; i++ {
			n := int(vc.Rnd("between", 4, g, i))
			t := PFrame
			if vc.Rnd("I", 4, g, i) == 0 {
				t = IFrame
			}
			picture(t, next+n)
			for b := 0; b < n; b++ {
				picture(BFrame, next+b)
			}
			next += n + 1
		}
		max := 0
		for i := 0; i < next; i++ {
			want = append(want, group[i])
			if at[i] > max {
				max = at[i]
			}
			need = append(need, max)
		}
	}
	w.put(0x1b7, 32)
	b := w.b
	cut := vc.Rnd("cut", 4) == 0
	if cut {
		b = b[:vc.Rnd("cut", uint64(len(b)))]
	}
	d := NewVideoSequence(&nSrc{b: append([]byte(nil), b...), err: io.EOF})
	var got []*image.YCbCr
	for i := 0; ; i++ {
		f, err := d.Next()
		if err != nil {
			vc.Assert(f == nil, "without a picture there is an error")
			if cut {
				// only frames whose pictures are followed by another start code are complete
				vc.Assert(i == len(need) || ends[need[i]-1]+32 > uint(len(b))*8, "every complete picture is returned")
			} else {
				vc.Assert(err == EOS && i == len(want), "every picture is returned, and then the end of the sequence")
			}
			break
		}
		if i >= len(want) || !nSame(f, want[i]) {
			vc.Assert(false, "the frame returned is the one displayed next")
			return
		}
		got = append(got, f)
	}
	for i, f := range got {
		vc.Assert(nSame(f, want[i]), "frames stay as they were returned")
	}
}
