package video

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// spCode: the n bits c are the code word of v (and w).
type spCode struct {
	c, n uint64
	v, w int64
}

// Table B-1, in the order of the increments 1 to 33.
var spAddressIncrements = []spCode{{0x1, 1, 1, 0}, {0x3, 3, 2, 0}, {0x2, 3, 3, 0}, {0x3, 4, 4, 0}, {0x2, 4, 5, 0}, {0x3, 5, 6, 0}, {0x2, 5, 7, 0}, {0x7, 7, 8, 0}, {0x6, 7, 9, 0}, {0xb, 8, 10, 0}, {0xa, 8, 11, 0}, {0x9, 8, 12, 0}, {0x8, 8, 13, 0}, {0x7, 8, 14, 0}, {0x6, 8, 15, 0},
	{0x17, 10, 16, 0}, {0x16, 10, 17, 0}, {0x15, 10, 18, 0}, {0x14, 10, 19, 0}, {0x13, 10, 20, 0}, {0x12, 10, 21, 0}, {0x23, 11, 22, 0}, {0x22, 11, 23, 0}, {0x21, 11, 24, 0}, {0x20, 11, 25, 0}, {0x1f, 11, 26, 0}, {0x1e, 11, 27, 0}, {0x1d, 11, 28, 0}, {0x1c, 11, 29, 0}, {0x1b, 11, 30, 0}, {0x1a, 11, 31, 0}, {0x19, 11, 32, 0}, {0x18, 11, 33, 0}}

// Flags of a macroblock type.
const (
	spQuant = 1 << iota
	spForward
	spBackward
	spPattern
	spIntra
)

// Tables B-2 to B-4.
var spTypesI = []spCode{{1, 1, spIntra, 0}, {1, 2, spQuant | spIntra, 0}}
var spTypesP = []spCode{{1, 1, spForward | spPattern, 0}, {1, 2, spPattern, 0}, {1, 3, spForward, 0}, {3, 5, spIntra, 0}, {2, 5, spQuant | spForward | spPattern, 0}, {1, 5, spQuant | spPattern, 0}, {1, 6, spQuant | spIntra, 0}}
var spTypesB = []spCode{{2, 2, spForward | spBackward, 0}, {3, 2, spForward | spBackward | spPattern, 0}, {2, 3, spBackward, 0}, {3, 3, spBackward | spPattern, 0}, {2, 4, spForward, 0}, {3, 4, spForward | spPattern, 0},
	{3, 5, spIntra, 0}, {2, 5, spQuant | spForward | spBackward | spPattern, 0}, {3, 6, spQuant | spForward | spPattern, 0}, {2, 6, spQuant | spBackward | spPattern, 0}, {1, 6, spQuant | spIntra, 0}}

// Table B-9, in the order of the patterns 0 to 63.
var spPatterns = func() (r []spCode) {
	for i, c := range [64][2]uint64{{0x1, 9}, {0xb, 5}, {0x9, 5}, {0xd, 6}, {0xd, 4}, {0x17, 7}, {0x13, 7}, {0x1f, 8}, {0xc, 4}, {0x16, 7}, {0x12, 7}, {0x1e, 8}, {0x13, 5}, {0x1b, 8}, {0x17, 8}, {0x13, 8}, {0xb, 4}, {0x15, 7}, {0x11, 7}, {0x1d, 8}, {0x11, 5}, {0x19, 8}, {0x15, 8}, {0x11, 8}, {0xf, 6}, {0xf, 8}, {0xd, 8}, {0x3, 9}, {0xf, 5}, {0xb, 8}, {0x7, 8}, {0x7, 9},
		{0xa, 4}, {0x14, 7}, {0x10, 7}, {0x1c, 8}, {0xe, 6}, {0xe, 8}, {0xc, 8}, {0x2, 9}, {0x10, 5}, {0x18, 8}, {0x14, 8}, {0x10, 8}, {0xe, 5}, {0xa, 8}, {0x6, 8}, {0x6, 9}, {0x12, 5}, {0x1a, 8}, {0x16, 8}, {0x12, 8}, {0xd, 5}, {0x9, 8}, {0x5, 8}, {0x5, 9}, {0xc, 5}, {0x8, 8}, {0x4, 8}, {0x4, 9}, {0x7, 3}, {0xa, 5}, {0x8, 5}, {0xc, 6}} {
		r = append(r, spCode{c[0], c[1], int64(i), 0})
	}
	return
}()

// Table B-10: magnitudes 0 to 16, followed by a sign unless zero.
var spMotionCodes = func() (r []spCode) {
	for i, c := range [17][2]uint64{{0x1, 1}, {0x1, 2}, {0x1, 3}, {0x1, 4}, {0x3, 6}, {0x5, 7}, {0x4, 7}, {0x3, 7}, {0xb, 9}, {0xa, 9}, {0x9, 9}, {0x11, 10}, {0x10, 10}, {0xf, 10}, {0xe, 10}, {0xd, 10}, {0xc, 10}} {
		if i == 0 {
			r = append(r, spCode{c[0], c[1], 0, 0})
		} else {
			r = append(r, spCode{c[0] << 1, c[1] + 1, int64(i), 0}, spCode{c[0]<<1 | 1, c[1] + 1, -int64(i), 0})
		}
	}
	return
}()

// Tables B-12 and B-13, in the order of the sizes 0 to 11.
var spDCLuma = []spCode{{4, 3, 0, 0}, {0, 2, 1, 0}, {1, 2, 2, 0}, {5, 3, 3, 0}, {6, 3, 4, 0}, {0xe, 4, 5, 0}, {0x1e, 5, 6, 0}, {0x3e, 6, 7, 0}, {0x7e, 7, 8, 0}, {0xfe, 8, 9, 0}, {0x1fe, 9, 10, 0}, {0x1ff, 9, 11, 0}}
var spDCChroma = []spCode{{0, 2, 0, 0}, {1, 2, 1, 0}, {2, 2, 2, 0}, {6, 3, 3, 0}, {0xe, 4, 4, 0}, {0x1e, 5, 5, 0}, {0x3e, 6, 6, 0}, {0x7e, 7, 7, 0}, {0xfe, 8, 8, 0}, {0x1fe, 9, 9, 0}, {0x3fe, 10, 10, 0}, {0x3ff, 10, 11, 0}}

// spLevels: how many levels the tables hold for each run.
var spLevels = [32]int{40, 18, 5, 4, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}

// Tables B-14 and B-15 without signs, ordered by run and level.
var spTableZero = [111][2]uint64{
	{0x3, 2}, {0x4, 4}, {0x5, 5}, {0x6, 7}, {0x26, 8}, {0x21, 8}, {0xa, 10}, {0x1d, 12}, {0x18, 12}, {0x13, 12}, {0x10, 12}, {0x1a, 13}, {0x19, 13}, {0x18, 13}, {0x17, 13}, {0x1f, 14}, {0x1e, 14}, {0x1d, 14}, {0x1c, 14}, {0x1b, 14}, {0x1a, 14}, {0x19, 14}, {0x18, 14}, {0x17, 14}, {0x16, 14}, {0x15, 14}, {0x14, 14}, {0x13, 14}, {0x12, 14}, {0x11, 14}, {0x10, 14}, {0x18, 15}, {0x17, 15}, {0x16, 15}, {0x15, 15}, {0x14, 15}, {0x13, 15}, {0x12, 15}, {0x11, 15}, {0x10, 15},
	{0x3, 3}, {0x6, 6}, {0x25, 8}, {0xc, 10}, {0x1b, 12}, {0x16, 13}, {0x15, 13}, {0x1f, 15}, {0x1e, 15}, {0x1d, 15}, {0x1c, 15}, {0x1b, 15}, {0x1a, 15}, {0x19, 15}, {0x13, 16}, {0x12, 16}, {0x11, 16}, {0x10, 16},
	{0x5, 4}, {0x4, 7}, {0xb, 10}, {0x14, 12}, {0x14, 13}, {0x7, 5}, {0x24, 8}, {0x1c, 12}, {0x13, 13}, {0x6, 5}, {0xf, 10}, {0x12, 12}, {0x7, 6}, {0x9, 10}, {0x12, 13}, {0x5, 6}, {0x1e, 12}, {0x14, 16}, {0x4, 6}, {0x15, 12}, {0x7, 7}, {0x11, 12}, {0x5, 7}, {0x11, 13}, {0x27, 8}, {0x10, 13}, {0x23, 8}, {0x1a, 16}, {0x22, 8}, {0x19, 16}, {0x20, 8}, {0x18, 16}, {0xe, 10}, {0x17, 16}, {0xd, 10}, {0x16, 16}, {0x8, 10}, {0x15, 16},
	{0x1f, 12}, {0x1a, 12}, {0x19, 12}, {0x17, 12}, {0x16, 12}, {0x1f, 13}, {0x1e, 13}, {0x1d, 13}, {0x1c, 13}, {0x1b, 13}, {0x1f, 16}, {0x1e, 16}, {0x1d, 16}, {0x1c, 16}, {0x1b, 16}}
var spTableOne = [111][2]uint64{
	{0x02, 2}, {0x06, 3}, {0x07, 4}, {0x1c, 5}, {0x1d, 5}, {0x05, 6}, {0x04, 6}, {0x7b, 7}, {0x7c, 7}, {0x23, 8}, {0x22, 8}, {0xfa, 8}, {0xfb, 8}, {0xfe, 8}, {0xff, 8}, {0x1f, 14}, {0x1e, 14}, {0x1d, 14}, {0x1c, 14}, {0x1b, 14}, {0x1a, 14}, {0x19, 14}, {0x18, 14}, {0x17, 14}, {0x16, 14}, {0x15, 14}, {0x14, 14}, {0x13, 14}, {0x12, 14}, {0x11, 14}, {0x10, 14}, {0x18, 15}, {0x17, 15}, {0x16, 15}, {0x15, 15}, {0x14, 15}, {0x13, 15}, {0x12, 15}, {0x11, 15}, {0x10, 15},
	{0x02, 3}, {0x06, 5}, {0x79, 7}, {0x27, 8}, {0x20, 8}, {0x16, 13}, {0x15, 13}, {0x1f, 15}, {0x1e, 15}, {0x1d, 15}, {0x1c, 15}, {0x1b, 15}, {0x1a, 15}, {0x19, 15}, {0x13, 16}, {0x12, 16}, {0x11, 16}, {0x10, 16},
	{0x05, 5}, {0x07, 7}, {0xfc, 8}, {0x0c, 10}, {0x14, 13}, {0x07, 5}, {0x26, 8}, {0x1c, 12}, {0x13, 13}, {0x06, 6}, {0xfd, 8}, {0x12, 12}, {0x07, 6}, {0x04, 9}, {0x12, 13}, {0x06, 7}, {0x1e, 12}, {0x14, 16}, {0x04, 7}, {0x15, 12}, {0x05, 7}, {0x11, 12}, {0x78, 7}, {0x11, 13}, {0x7a, 7}, {0x10, 13}, {0x21, 8}, {0x1a, 16}, {0x25, 8}, {0x19, 16}, {0x24, 8}, {0x18, 16}, {0x05, 9}, {0x17, 16}, {0x07, 9}, {0x16, 16}, {0x0d, 10}, {0x15, 16},
	{0x1f, 12}, {0x1a, 12}, {0x19, 12}, {0x17, 12}, {0x16, 12}, {0x1f, 13}, {0x1e, 13}, {0x1d, 13}, {0x1c, 13}, {0x1b, 13}, {0x1f, 16}, {0x1e, 16}, {0x1d, 16}, {0x1c, 16}, {0x1b, 16}}

func spCoefficients(t [111][2]uint64, first spCode) (r []spCode) {
	k := 0
	for run, n := range spLevels {
		for level := 1; level <= n; level++ {
			c := spCode{t[k][0], t[k][1], int64(run), int64(level)}
			if k == 0 {
				c = first
			}
			r = append(r, c)
			k++
		}
	}
	return
}

// The coefficients in order: table B-14 for a first coefficient, for others, and table B-15.
var spFirst = spCoefficients(spTableZero, spCode{1, 1, 0, 1})
var spZero = spCoefficients(spTableZero, spCode{3, 2, 0, 1})
var spOne = spCoefficients(spTableOne, spCode{2, 2, 0, 1})

// codeStream: a stream, at any position with any bits, whose error is not an error of decoding.
func codeStream() (*vc.Stream, uint64) {
	s := vc.NewStream("s", 0)
	p := vc.U64("at")
	vc.Assume(p <= vc.Len(s))
	vc.SetPos(s, p)
	return s, p
}

// decodes asserts that the code at p has been decoded: v is the value decoded. The stream may end within max bits.
func decodes(s *vc.Stream, p uint64, t []spCode, max uint64, err error, v int64) {
	for i := range t {
		if spHas(s, p, t[i].n, t[i].c) {
			if err != nil {
				vc.Cover("end of the stream")
				vc.Assert(vc.Len(s) < p+max && err == vc.EndErr(s) && vc.Pos(s) == p, "only the end of the stream is an error, and nothing is consumed")
				return
			}
			vc.Cover("decoded")
			vc.Assert(v == t[i].v, "the value of the code word is returned")
			vc.Assert(vc.Pos(s) == p+t[i].n, "exactly the code word is consumed")
			return
		}
	}
	vc.Cover("no code word")
	vc.Assert(err != nil && vc.Pos(s) == p, "patterns that start no code word yield an error and consume nothing")
}

//verif:harness prop=V04
func hvAddressIncrements() {
	s, p := codeStream()
	v, err := macroblockAddressIncrementDecoder.Decode(s)
	decodes(s, p, spAddressIncrements, 11, err, int64(v))
}

func typeOf(s bitreader.BitReader, f func(bitreader.BitReader) (*MacroblockType, error)) (v int64, err error) {
	t, err := f(s)
	if t != nil {
		for i, b := range [5]bool{t.macroblock_quant, t.macroblock_motion_forward, t.macroblock_motion_backward, t.macroblock_pattern, t.macroblock_intra} {
			if b {
				v |= 1 << uint(i)
			}
		}
		vc.Assert(!t.spatial_temporal_weight_code_flag, "there is no spatial temporal weight code")
	}
	return v, err
}

//verif:harness prop=V04
func hvMacroblockTypes() {
	s, p := codeStream()
	switch vc.IntRange("table", 1, 3) {
	case 1:
		v, err := typeOf(s, macroblockTypeDecoder.IFrame)
		decodes(s, p, spTypesI, 2, err, v)
	case 2:
		v, err := typeOf(s, macroblockTypeDecoder.PFrame)
		decodes(s, p, spTypesP, 6, err, v)
	default:
		v, err := typeOf(s, macroblockTypeDecoder.BFrame)
		decodes(s, p, spTypesB, 6, err, v)
	}
}

//verif:harness prop=V04
func hvPatterns() {
	s, p := codeStream()
	v, err := decodeCpb(s)
	decodes(s, p, spPatterns, 9, err, int64(v))
}

//verif:harness prop=V04
func hvMotionCodes() {
	s, p := codeStream()
	v, err := decodeMotionCode(s)
	decodes(s, p, spMotionCodes, 11, err, int64(v))
}

//verif:harness prop=V04
func hvDCSizes() {
	s, p := codeStream()
	if vc.Bool("chroma") {
		v, err := dctDCSizeDecoders.Chroma(s)
		decodes(s, p, spDCChroma, 10, err, int64(v))
		return
	}
	v, err := dctDCSizeDecoders.Luma(s)
	decodes(s, p, spDCLuma, 9, err, int64(v))
}

// coefficient asserts what decoding a coefficient at p yields.
func coefficient(t []spCode, eob spCode, decode dctCoefficientDecoderFn, n int) {
	s, p := codeStream()
	run, level, end, err := decode(s, n)
	if vc.Len(s) < p+24 {
		// a start code follows the coefficients of a block, these are not the last bits of the stream
		vc.Cover("end of the stream")
		return
	}
	if eob.n > 0 && vc.Bits(s, p, eob.n) == eob.c {
		vc.Cover("end of block")
		vc.Assert(err == nil && end && vc.Pos(s) == p+eob.n, "the end of block is recognised and consumed")
		return
	}
	if vc.Bits(s, p, 6) == 1 {
		vc.Cover("escape")
		vc.Assert(err == nil && !end && uint64(run) == vc.Bits(s, p+6, 6), "the run of an escape")
		l := int32(vc.Bits(s, p+12, 12))
		vc.Assert(level == vc.IteI32(l >= 2048, l-4096, l), "the level of an escape")
		vc.Assert(vc.Pos(s) == p+24, "exactly the escape is consumed")
		return
	}
	for i := range t {
		if vc.Bits(s, p, t[i].n) == t[i].c {
			vc.Cover("coefficient")
			l := int32(t[i].w)
			vc.Assert(err == nil && !end && int64(run) == t[i].v && level == vc.IteI32(vc.Bits(s, p+t[i].n, 1) == 1, -l, l), "run and level of the code word, with its sign")
			vc.Assert(vc.Pos(s) == p+t[i].n+1, "exactly the code word and its sign are consumed")
			return
		}
	}
	vc.Cover("no code word")
	vc.Assert(err != nil && vc.Pos(s) == p, "patterns that start no code word yield an error and consume nothing")
}

//verif:harness prop=V04
func hvFirstCoefficient() {
	coefficient(spFirst, spCode{}, dctCoefficientDecoders.TableZero, 0)
}

//verif:harness prop=V04
func hvTableZero() {
	n := vc.Int("n")
	vc.Assume(n > 0 && n < 65)
	coefficient(spZero, spCode{2, 2, 0, 0}, dctCoefficientDecoders.TableZero, n)
}

//verif:harness prop=V04
func hvTableOne() {
	n := vc.Int("n")
	vc.Assume(n > 0 && n < 65)
	coefficient(spOne, spCode{6, 4, 0, 0}, dctCoefficientDecoders.TableOne, n)
}
