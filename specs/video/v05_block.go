package video

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// The coefficients of a block, as the coefficient decoders (V04) yield them: ghB is what is known of the block after
// the coefficients decoded so far, for one arbitrary position ghJ.
type ghBlock struct {
	j        int   // the position observed
	n        int   // coefficients known
	from     int   // before the last code word
	val      int32 // the coefficient at j, if j < n
	one      bool  // table one is used
	done     bool  // the end of block has been read
	bad      bool  // a run went past the end
	end      uint64
	err      error
	size     uint64
	chroma   bool
	dcRead   bool
	dcWanted bool
}

var ghB ghBlock

// spRun, spLevel, spKind, spBits: the code word at p; kind 0 is an end of block, 1 an error, others a coefficient.
func spRun(p uint64, first bool) uint64   { return vc.UF("v.run", p, vc.Ite64(first, 1, 0)) & 63 }
func spLevel(p uint64, first bool) uint32 { return vc.UFU32("v.level", p, vc.Ite64(first, 1, 0)) }
func spKind(p uint64, first bool) uint64  { return vc.UF("v.kind", p, vc.Ite64(first, 1, 0)) & 3 }
func spBits(p uint64, first bool) uint64  { return vc.UF("v.bits", p, vc.Ite64(first, 1, 0))&15 + 2 }

// coefficientDecoder stands for a decoder of coefficients.
func coefficientDecoder(one bool) dctCoefficientDecoderFn {
	return func(br bitreader.BitReader, n int) (int, int32, bool, error) {
		p := vc.Pos(br)
		vc.Assert(one == ghB.one, "the second table is used exactly for intra blocks with intra_vlc_format 1")
		vc.Assert(!ghB.done && !ghB.bad && ghB.err == nil && p == ghB.end, "the code words follow each other up to the end of block")
		vc.Assert((n == 0) == (ghB.n == 0), "the first coefficient uses its own code words")
		vc.Assert(ghB.dcRead == ghB.dcWanted, "the DC coefficient comes first")
		first := ghB.n == 0
		k := spKind(p, first)
		ghB.from = ghB.n
		if k == 1 || p+spBits(p, first) > vc.Len(br) || k == 0 && first {
			ghB.err = vc.EndErr(br)
			return 0, 0, false, ghB.err
		}
		ghB.end = p + spBits(p, first)
		vc.SetPos(br, ghB.end)
		if k == 0 {
			ghB.done = true
			if ghB.j >= ghB.n {
				ghB.val = 0
			}
			ghB.n = 64
			return 0, 0, true, nil
		}
		run := int(spRun(p, first))
		level := int32(spLevel(p, first))
		if ghB.n+run >= 64 {
			ghB.bad = true
			return run, level, false, nil
		}
		if ghB.j >= ghB.n && ghB.j < ghB.n+run {
			ghB.val = 0
		} else if ghB.j == ghB.n+run {
			ghB.val = level
		}
		ghB.n += run + 1
		return run, level, false, nil
	}
}

// sizeDecoder stands for a decoder of DC sizes.
func sizeDecoder(chroma bool) dctDCSizeDecoderFn {
	return func(br bitreader.BitReader) (uint, error) {
		p := vc.Pos(br)
		vc.Assert(chroma == ghB.chroma, "the size of the DC differential uses the table of the component")
		vc.Assert(ghB.dcWanted && !ghB.dcRead && p == ghB.end, "the DC coefficient of an intra block comes first, and once")
		w := vc.UF("v.dcbits", p)&7 + 2
		if p+w > vc.Len(br) {
			ghB.err = vc.EndErr(br)
			return 0, ghB.err
		}
		vc.SetPos(br, p+w)
		ghB.dcRead = true
		for k := uint(0); k < 12; k++ {
			if ghB.size == uint64(k) {
				ghB.end = p + w + uint64(k)
				return k, nil
			}
		}
		return 0, nil
	}
}

//verif:loop for=(*block).read n=1
func invBlockRead(QFS *block, n int, eob_not_read bool) {
	vc.Inv(eob_not_read == !ghB.done, "the block is read up to the end of block")
	vc.Inv(n >= 0 && n <= 64 && n == ghB.n, "as many coefficients as the code words yield")
	vc.Inv(ghB.err == nil && !ghB.bad && ghB.dcRead == ghB.dcWanted && (!ghB.done || n == 64) && (ghB.n == 0 || ghB.j >= 0), "no error is passed over")
	vc.Inv(vc.Pos(ghS) == ghB.end && ghB.end <= vc.Len(ghS), "each code word is consumed")
	vc.Inv(ghB.j >= n || QFS[ghB.j&63] == ghB.val, "coefficients are at the positions their runs dictate")
	vc.Dec(uint64(2*(64-n)) + vc.Ite64(ghB.done, 0, 1))
}

//verif:loop for=(*block).read n=2
func invBlockFill(QFS *block) {
	n := ghB.from + vc.Iter()
	vc.Inv(n >= ghB.from && n <= 64, "up to the end of the block")
	vc.Inv(ghB.j >= n || QFS[ghB.j&63] == ghB.val, "zeros after the last coefficient")
	vc.Dec(uint64(64 - n))
}

//verif:loop for=(*block).read n=3
func invBlockRun(QFS *block, n, run int) {
	m := vc.Iter()
	vc.Inv(m >= 0 && m <= run && n == ghB.from+m && run+ghB.from < 64, "as many zeros as the run")
	vc.Inv(ghB.j >= n || QFS[ghB.j&63] == ghB.val, "zeros before the coefficient")
	vc.Dec(uint64(run - m))
}

// hvBlockRead: a block is what its code words say.
//
//verif:harness prop=V05
//verif:inv invBlockRead
//verif:inv invBlockFill
//verif:inv invBlockRun
func hvBlockRead() {
	zero, one, luma, chroma := dctCoefficientDecoders.TableZero, dctCoefficientDecoders.TableOne, dctDCSizeDecoders.Luma, dctDCSizeDecoders.Chroma
	defer func() {
		dctCoefficientDecoders.TableZero, dctCoefficientDecoders.TableOne, dctDCSizeDecoders.Luma, dctDCSizeDecoders.Chroma = zero, one, luma, chroma
	}()
	dctCoefficientDecoders.TableZero = coefficientDecoder(false)
	dctCoefficientDecoders.TableOne = coefficientDecoder(true)
	dctDCSizeDecoders.Luma = sizeDecoder(false)
	dctDCSizeDecoders.Chroma = sizeDecoder(true)
	s := vc.NewStream("s", 0)
	ghS = s
	p := vc.U64("at")
	if vc.Native() && vc.Searching() {
		p &= 63
	}
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	var b block
	vc.Any("block", &b)
	var pred dcDctPredictors
	vc.Any("predictors", &pred)
	old := pred
	cc := vc.IntRange("cc", 0, 2)
	intra := vc.Bool("intra")
	format := vc.U32("intra_vlc_format") & 1
	size := vc.U64("dc size")
	if vc.Native() && vc.Searching() {
		size %= 12
	}
	vc.Assume(size < 12)
	j := vc.IntRange("j", 0, 63)
	ghB = ghBlock{j: j, one: intra && format == 1, end: p, size: size, chroma: cc != 0, dcWanted: intra}
	dc := old[cc]
	if intra {
		q := p + vc.UF("v.dcbits", p)&7 + 2
		diff := int32(0)
		for k := uint64(1); k < 12; k++ {
			if size == k && q+k <= vc.Len(s) {
				v := int32(vc.Bits(s, q, k))
				diff = vc.IteI32(v >= 1<<(k-1), v, v-(1<<k-1))
			}
		}
		dc += diff
		ghB.n = 1
		if j == 0 {
			ghB.val = dc
		}
	}
	err := b.read(s, &pred, format, cc, intra)
	for c := 0; c < 3; c++ {
		vc.Assert(c == cc || pred[c] == old[c], "the predictors of the other components stay")
	}
	if !intra {
		vc.Assert(pred == old, "non-intra blocks keep the predictors")
	}
	if err != nil {
		vc.Cover("error")
		vc.Assert(ghB.bad || err == ghB.err || err == spEOF(s) || err == vc.EndErr(s), "only malformed or truncated blocks are errors")
		vc.Assert(ghB.bad || ghB.err != nil || ghB.end > vc.Len(s), "only malformed or truncated blocks are errors")
		return
	}
	vc.Cover("block")
	vc.Assert(ghB.done && ghB.err == nil && !ghB.bad, "a block ends with its end of block, and runs within it")
	vc.Assert(vc.Pos(s) == ghB.end, "the stream is left right after the end of block")
	vc.Assert(b[j] == ghB.val, "every coefficient is the one that the code words yield for its position")
	vc.Assert(!intra || pred[cc] == dc, "the DC coefficient becomes the predictor of its component")
}
