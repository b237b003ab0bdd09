package video

import (
	"github.com/32bitkid/mpeg/internal/vc"
)

// spAlternate is figure 7-3: the position in transmission order of the coefficient at row v, column u.
var spAlternate = [64]int{
	0, 4, 6, 20, 22, 36, 38, 52,
	1, 5, 7, 21, 23, 37, 39, 53,
	2, 8, 19, 24, 34, 40, 50, 54,
	3, 9, 18, 25, 35, 41, 51, 55,
	10, 17, 26, 30, 42, 46, 56, 60,
	11, 16, 27, 31, 43, 47, 57, 61,
	12, 15, 28, 32, 44, 48, 58, 62,
	13, 14, 29, 33, 45, 49, 59, 63,
}

// spScales is table 7-6.
var spScales = [2][32]int32{
	{0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62},
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22, 24, 28, 32, 36, 40, 44, 48, 52, 56, 64, 72, 80, 88, 96, 104, 112},
}

func spClip(v, lo, hi int32) int32 { return vc.IteI32(v < lo, lo, vc.IteI32(v > hi, hi, v)) }

// spDequantise is the reconstruction of 7.4.2 before saturation; no product leaves 32 bits.
func spDequantise(qf int32, w uint8, scale int32, intra bool) int32 {
	k := int32(0)
	if !intra && qf > 0 {
		k = 1
	} else if !intra && qf < 0 {
		k = -1
	}
	return (2*qf + k) * int32(w) * scale / 32
}

// hvDequantiseIntra and hvDequantiseNonIntra: the dequantised block is the one 7.3 and 7.4 define.
//
//verif:harness prop=V06
//verif:lazy
//verif:search 10000
func hvDequantiseIntra() { checkDequantise(true) }

//verif:harness prop=V06
//verif:lazy
//verif:search 10000
func hvDequantiseNonIntra() { checkDequantise(false) }

func checkDequantise(intra bool) {
	vs := decoding(nil)
	alt := uint32(vc.CaseInt(vc.IntRange("alternate_scan", 0, 1), 0, 1))
	precision := vc.U32("intra_dc_precision") & 3
	stype := vc.U32("q_scale_type") & 1
	pe := vs.PictureCodingExtension
	pe.alternate_scan, pe.q_scale_type, pe.intra_dc_precision = alt, stype, precision
	format := []ChromaFormat{ChromaFormat420, ChromaFormat422, ChromaFormat444}[vc.IntRange("chroma_format", 0, 2)]
	vs.SequenceExtension.chroma_format = format
	code := vc.U32("quantiser_scale_code") & 31
	cc := vc.IntRange("cc", 0, 2)
	chroma := vc.Case(cc != 0 && format != ChromaFormat420) // has matrices of its own
	var b block
	vc.Any("coefficients", &b)
	for k := range b {
		if vc.Native() && vc.Searching() {
			b[k] = (b[k] % 2048) >> (uint32(b[k]) >> 28)
		}
		if k == 0 && intra {
			vc.Assume(b[k] >= -1<<24 && b[k] <= 1<<24) // predictors accumulate
		} else {
			vc.Assume(b[k] >= -2048 && b[k] <= 2047)
		}
	}
	in := b
	b.decode_block(vs, cc, code, intra)
	vc.Cover("dequantised")
	w := 0
	if !intra {
		w = 1
	}
	if chroma {
		w += 2
	}
	sum, last := int32(0), int32(0)
	for k := 0; k < 64; k++ {
		qf := in[spZigzag[k]]
		if alt == 1 {
			qf = in[spAlternate[k]]
		}
		f := spDequantise(qf, vs.quantisationMatricies[w][k/8][k%8], spScales[stype][code], intra)
		if k == 0 && intra {
			f = qf << (3 - precision)
		}
		last = spClip(f, -2048, 2047)
		if k < 63 {
			vc.Assert(b[k] == last, "inverse scan, quantisation and saturation")
			sum += b[k]
		}
	}
	sum += last
	if sum&1 == 0 {
		// an odd sum by toggling the last bit
		if last&1 == 1 {
			last--
		} else {
			last++
		}
	}
	vc.Assert(b[63] == last, "the last coefficient after mismatch control")
}
