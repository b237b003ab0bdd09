package video

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// The motion codes of the vectors being decoded; V04 proves the decoder against Table B-10. Each code may end anywhere
// after its beginning.
type ghMotion struct {
	at   uint64 // where the vectors begin
	k    int    // codes decoded
	end  [4]uint64
	code [4]int
	f    [2]uint32
	sel  uint64 // size of the field select of each vector
	n    int    // codes expected
	err  error
}

var ghM ghMotion

// spResidualBits: the size of the residual of code k.
func spResidualBits(k int) uint64 {
	return vc.Ite64(ghM.f[k&1] == 1 || ghM.code[k] == 0, 0, uint64(ghM.f[k&1]-1))
}

// spMotionNext: where code k begins.
func spMotionNext(k int) uint64 {
	r := ghM.at
	if k > 0 {
		r = ghM.end[k-1] + spResidualBits(k-1)
	}
	if k&1 == 0 && k < ghM.n {
		r += ghM.sel
	}
	return r
}

//verif:contract for=decodeMotionCode
func ctMotionCode(br bitreader.BitReader) (int, error) {
	k := ghM.k
	p := vc.Pos(br)
	vc.Assert(k < ghM.n && ghM.err == nil, "as many motion codes as the motion type calls for")
	if k >= ghM.n || ghM.err != nil {
		return 0, spEOF(ghS)
	}
	vc.Assert(p == spMotionNext(k), "exactly the elements of the vectors are consumed")
	if vc.UFBool("v.mcbad", uint64(k)) {
		e := vc.UFErr("v.mcerr", uint64(k))
		vc.Assume(e != nil)
		ghM.err = e
		return 0, e
	}
	end, code := vc.UF("v.mcend", uint64(k)), vc.UFInt("v.mcode", uint64(k))
	vc.Assume(end > p && end <= vc.Len(br) && code >= -16 && code <= 16)
	ghM.k, ghM.end[k], ghM.code[k] = k+1, end, code
	vc.SetPos(br, end)
	return code, nil
}

// spVector: the component with the given prediction (7.6.3.1).
func spVector(code, residual int, f_code uint32, pred int) int {
	f := 1 << (f_code - 1)
	delta := code
	if !(f == 1 || code == 0) {
		m := code
		if m < 0 {
			m = -m
		}
		delta = (m-1)*f + residual + 1
		if code < 0 {
			delta = -delta
		}
	}
	v := pred + delta
	if v < -16*f {
		v += 32 * f
	}
	if v > 16*f-1 {
		v -= 32 * f
	}
	return v
}

// spMotionInfo: Tables 6-17 and 6-18; count 0 stands for reserved types.
func spMotionInfo(vs *VideoSequence, mb *Macroblock) (r motionVectorInfo) {
	e := vs.PictureCodingExtension
	frame := e.picture_structure == PictureStructure_FramePicture
	r = motionVectorInfo{1, motionVectorFormat_Frame, 0}
	if !frame {
		r.motion_vector_format = motionVectorFormat_Field
	}
	if mb.macroblock_type.macroblock_intra || e.frame_pred_frame_dct == 1 {
		return
	}
	if frame {
		if mb.frame_motion_type == 0 {
			r.motion_vector_count = 0
		} else if mb.frame_motion_type == 1 {
			r = motionVectorInfo{2, motionVectorFormat_Field, 0}
		} else if mb.frame_motion_type == 3 {
			r = motionVectorInfo{1, motionVectorFormat_Field, 1}
		}
	} else {
		if mb.field_motion_type == 0 {
			r.motion_vector_count = 0
		} else if mb.field_motion_type == 2 {
			r.motion_vector_count = 2
		} else if mb.field_motion_type == 3 {
			r.dmv = 1
		}
	}
	return
}

// hvMotionVectors: the vectors of one direction.
//
//verif:harness prop=V08
//verif:use ctMotionCode
func hvMotionVectors() {
	if vc.Native() {
		return
	}
	s := spStream()
	ghS = s
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	vs := decoding(s)
	e := vs.PictureCodingExtension
	dir := vc.CaseInt(vc.IntRange("direction", 0, 1), 0, 1)
	f0, f1 := e.f_code[dir][0], e.f_code[dir][1]
	vc.Assume(f0 >= 1 && f0 <= 9 && f1 >= 1 && f1 <= 9)
	vc.Assume(e.frame_pred_frame_dct <= 1)
	frame := e.picture_structure == PictureStructure_FramePicture
	vc.Assume(frame || e.frame_pred_frame_dct == 0)
	mt := MacroblockType{}
	vc.Any("macroblock type", &mt)
	mb := Macroblock{}
	vc.Any("macroblock", &mb)
	mb.macroblock_type = &mt
	mb.frame_motion_type, mb.field_motion_type = 0, 0 // the type of the other kind of picture is not present
	if frame {
		mb.frame_motion_type = vc.U32("frame_motion_type") & 3
	} else {
		mb.field_motion_type = vc.U32("field_motion_type") & 3
	}
	mvd := motionVectorData{}
	vc.Any("vectors", &mvd)
	for r := 0; r < 2; r++ {
		for t := 0; t < 2; t++ {
			vc.Assume(mvd.predictions[r][dir][t] >= -(1<<20) && mvd.predictions[r][dir][t] <= 1<<20)
		}
	}
	old := mvd
	info := spMotionInfo(vs, &mb)
	info.motion_vector_count = vc.CaseInt(info.motion_vector_count, 0, 2)
	field := info.motion_vector_format == motionVectorFormat_Field
	half := field && frame
	if info.dmv == 1 {
		vc.AllowPanics() // dual prime is not supported
	}

	ghM = ghMotion{at: p, n: 2 * info.motion_vector_count, f: [2]uint32{f0, f1}}
	if field && info.dmv == 0 {
		ghM.sel = 1
	}

	err := vs.motion_vectors(dir, &mb, &mvd)

	// the other direction
	for r := 0; r < 2; r++ {
		for t := 0; t < 2; t++ {
			vc.Assert(mvd.predictions[r][1-dir][t] == old.predictions[r][1-dir][t] && mvd.actual[r][1-dir][t] == old.actual[r][1-dir][t], "the vectors and predictions of the other direction stay")
		}
	}
	if info.motion_vector_count == 0 {
		vc.Cover("reserved")
		vc.Assert(err == ErrInvalidMotionType && vc.Pos(s) == p, "reserved motion types are an error")
		return
	}
	n := 2 * info.motion_vector_count
	if err != nil {
		vc.Cover("error")
		vc.Assert(ghM.err == nil || err == ghM.err, "malformed codes are an error")
		vc.Assert(ghM.err != nil || err == spEOF(s) && vc.Len(s) < spMotionNext(ghM.k), "only malformed or truncated vectors are an error")
		return
	}
	vc.Cover("vectors")
	vc.Assert(ghM.err == nil && ghM.k == n && vc.Pos(s) == spMotionNext(n), "exactly the elements of the vectors are consumed")
	for k := 0; k < n; k++ {
		r, t := k/2, k%2
		f := ghM.f[t]
		pred := old.predictions[r][dir][t]
		if half && t == 1 {
			pred >>= 1
		}
		residual := 0
		if vc.Case(f != 1 && ghM.code[k] != 0) {
			residual = int(vc.Bits(s, ghM.end[k], uint64(f-1)))
		}
		v := spVector(ghM.code[k], residual, f, pred)
		next := v
		if half && t == 1 {
			next <<= 1
		}
		vc.Assert(mvd.actual[r][dir][t] == v, "the vector is the prediction plus the differential, wrapped into the range of its f_code")
		vc.Assert(mvd.predictions[r][dir][t] == next, "the vector becomes the next prediction, in the units of predictions")
	}
	if info.motion_vector_count == 1 {
		vc.Cover("one vector")
		vc.Assert(mvd.predictions[1][dir] == mvd.predictions[0][dir], "a single vector updates the predictions of both")
	}
}

// hvVectorRange: vectors stay within the range of their f_code.
//
//verif:harness prop=V08
func hvVectorRange() {
	f := uint32(vc.CaseInt(vc.IntRange("f_code", 1, 9), 1, 9))
	code, residual, pred := vc.IntRange("code", -16, 16), vc.IntRange("residual", 0, 255), vc.Int("prediction")
	m := 16 << (f - 1)
	vc.Assume(residual < 1<<(f-1) && pred >= -m && pred < m)
	v := spVector(code, residual, f, pred)
	vc.Cover("vector")
	vc.Assert(v >= -m && v < m, "vectors are within the range of their f_code")
	d := code
	if f != 1 && code > 0 {
		d = (code-1)*(m/16) + residual + 1
	} else if f != 1 && code < 0 {
		d = -((-code-1)*(m/16) + residual + 1)
	}
	vc.Assert((v-pred-d)&(2*m-1) == 0, "vectors differ from the prediction by the differential, up to whole ranges")
}

// hvResetVectors: resets.
//
//verif:harness prop=V08
func hvResetVectors() {
	mvd := motionVectorData{}
	vc.Any("vectors", &mvd)
	old := mvd
	if vc.Bool("all") {
		mvd.reset()
		vc.Cover("reset")
		vc.Assert(mvd.predictions == motionVectorPredictions{} && mvd.actual == motionVectors{}, "resetting clears every prediction and vector")
		return
	}
	s := vc.CaseInt(vc.IntRange("direction", 0, 1), 0, 1)
	mvd.clear_actual(s)
	vc.Cover("clear")
	for r := 0; r < 2; r++ {
		vc.Assert(mvd.actual[r][s] == [2]int{}, "clearing a direction clears its vectors")
		vc.Assert(mvd.actual[r][1-s] == old.actual[r][1-s], "clearing a direction keeps the other")
	}
	vc.Assert(mvd.predictions == old.predictions, "clearing vectors keeps the predictions")
}
