package video

import (
	"github.com/32bitkid/mpeg/internal/vc"
)

// spZigzag[64] is figure 7-2: the position in transmission order of the coefficient at row v, column u.
var spZigzag = [64]int{
	0, 1, 5, 6, 14, 15, 27, 28,
	2, 4, 7, 13, 16, 26, 29, 42,
	3, 8, 12, 17, 25, 30, 41, 43,
	9, 11, 18, 24, 31, 40, 44, 53,
	10, 19, 23, 32, 39, 45, 52, 54,
	20, 22, 33, 38, 46, 51, 55, 60,
	21, 34, 37, 47, 50, 56, 59, 61,
	35, 36, 48, 49, 57, 58, 62, 63,
}

// spDefaultIntra is the default matrix of 6.3.11.
var spDefaultIntra = [64]uint8{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}

// hvDefaultMatrices: the package's default matrices are the standard's (and nothing changes them, see hvSequenceMatrices).
//
//verif:harness prop=V03
func hvDefaultMatrices() {
	vc.Cover("compared")
	for k := 0; k < 64; k++ {
		vc.Assert(defaultQuantisationMatrices.Intra[k/8][k%8] == spDefaultIntra[k], "the default intra matrix is the standard's")
		vc.Assert(defaultQuantisationMatrices.NonIntra[k/8][k%8] == 16, "the default non-intra matrix is flat 16")
	}
}

// hvSequenceMatrices: the matrices in force after a sequence header, whatever was in force before.
//
//verif:harness prop=V03
//verif:use ctNextStartCode
func hvSequenceMatrices() {
	if vc.Native() {
		return
	}
	s := spStream()
	vs := anySequence(s)
	err := vs.sequence_header()
	if err != nil {
		vc.Cover("not a sequence header")
		return
	}
	intra := vc.Bits(s, 94, 1) == 1
	m := vc.Ite64(intra, 607, 95)
	nonintra := vc.Bits(s, m, 1) == 1
	vc.Cover("installed")
	for k := 0; k < 64; k++ {
		n := 8 * uint64(spZigzag[k])
		want := vc.Ite64(intra, vc.Bits(s, 95+n, 8), uint64(spDefaultIntra[k]))
		vc.Assert(uint64(vs.quantisationMatricies[0][k/8][k%8]) == want, "the intra matrix is the one transmitted, or the default")
		vc.Assert(uint64(vs.quantisationMatricies[2][k/8][k%8]) == want, "the chrominance intra matrix is the one transmitted, or the default")
		want = vc.Ite64(nonintra, vc.Bits(s, m+1+n, 8), 16)
		vc.Assert(uint64(vs.quantisationMatricies[1][k/8][k%8]) == want, "the non-intra matrix is the one transmitted, or the default")
		vc.Assert(uint64(vs.quantisationMatricies[3][k/8][k%8]) == want, "the chrominance non-intra matrix is the one transmitted, or the default")
		vc.Assert(defaultQuantisationMatrices.Intra[k/8][k%8] == spDefaultIntra[k] && defaultQuantisationMatrices.NonIntra[k/8][k%8] == 16, "the default matrices are not changed")
	}
	vc.Assert(vs.SequenceHeader != nil, "the sequence header is in force")
}

// hvQuantMatrixExtension: the matrices in force after a quant matrix extension.
//
//verif:harness prop=V03
//verif:use ctNextStartCode
func hvQuantMatrixExtension() {
	if vc.Native() {
		return
	}
	s := spStream()
	vs := anySequence(s)
	old := vs.quantisationMatricies
	err := vs.quant_matrix_extension()
	// the position of each load flag and whether its matrix follows
	var at [4]uint64
	var load [4]bool
	p := uint64(4)
	for i := 0; i < 4; i++ {
		at[i] = p
		load[i] = vc.Len(s) > p && vc.Bits(s, p, 1) == 1
		p = vc.Ite64(load[i], p+513, p+1)
	}
	if !hasOutcome(s, err, p, spPart{0, 4, 3, ErrUnexpectedExtensionID}) {
		return
	}
	// luminance intra, luminance non-intra, chrominance intra, chrominance non-intra
	for k := 0; k < 64; k++ {
		n := 8 * uint64(spZigzag[k])
		y, x := k/8, k%8
		for i := 0; i < 4; i++ {
			want := uint64(old[i][y][x])
			if i >= 2 {
				want = vc.Ite64(load[i-2], vc.Bits(s, at[i-2]+1+n, 8), want)
			}
			want = vc.Ite64(load[i], vc.Bits(s, at[i]+1+n, 8), want)
			vc.Assert(uint64(vs.quantisationMatricies[i][y][x]) == want, "an extension replaces exactly the matrices it transmits")
		}
	}
}

// decoding: a sequence over s while a picture is decoded, in any state.
func decoding(s *vc.Stream) *VideoSequence {
	sh, se, gh := SequenceHeader{}, SequenceExtension{}, GroupOfPicturesHeader{}
	ph, pe := PictureHeader{}, PictureCodingExtension{}
	vc.Any("sequence header", &sh)
	vc.Any("sequence extension", &se)
	vc.Any("group of pictures header", &gh)
	vc.Any("picture header", &ph)
	vc.Any("picture coding extension", &pe)
	vs := &VideoSequence{BitReader: s}
	vs.SequenceHeader, vs.SequenceExtension = &sh, &se
	vs.GroupOfPicturesHeader, vs.PictureHeader, vs.PictureCodingExtension = &gh, &ph, &pe
	vc.Any("matrices", &vs.quantisationMatricies)
	vc.Any("frame counter", &vs.frameCounter)
	return vs
}

// anySequence: a sequence over s in any state, before or after its first headers.
func anySequence(s *vc.Stream) *VideoSequence {
	vs := &VideoSequence{BitReader: s}
	vc.Any("matrices", &vs.quantisationMatricies)
	vc.Any("frame counter", &vs.frameCounter)
	if vc.Bool("has sequence header") {
		h := SequenceHeader{}
		vc.Any("sequence header", &h)
		vs.SequenceHeader = &h
	}
	if vc.Bool("has sequence extension") {
		h := SequenceExtension{}
		vc.Any("sequence extension", &h)
		vs.SequenceExtension = &h
	}
	if vc.Bool("has picture") {
		h := PictureHeader{}
		vc.Any("picture header", &h)
		vs.PictureHeader = &h
		e := PictureCodingExtension{}
		vc.Any("picture coding extension", &e)
		vs.PictureCodingExtension = &e
	}
	return vs
}
