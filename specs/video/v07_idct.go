package video

import "github.com/32bitkid/mpeg/internal/vc"

// hvIDCT: the transform of every block is accurate.
//
//verif:harness prop=V07
//verif:lazy all
func hvIDCT() { checkIDCT("every block", 0, 3000) }

// hvIDCTSamples: the transform of a block of samples and prediction errors is more accurate.
//
//verif:harness prop=V07
//verif:lazy all
func hvIDCTSamples() { checkIDCT("blocks of samples in -384..384", 384, 1000) }

func checkIDCT(label string, samples, milli int) {
	var b block
	vc.Any("F", &b)
	for i := range b {
		if vc.Native() && vc.Searching() {
			b[i] = (b[i] % 2048) >> (uint32(b[i]) >> 28)
			if vc.Rnd("keep", 16, uint64(i)) > 1<<vc.Rnd("density", 5) {
				b[i] = 0
			}
		}
		vc.Assume(b[i] >= -2048 && b[i] <= 2047)
	}
	in := b
	b.idct()
	vc.Cover("transformed")
	vc.InverseDCT(label, in[:], b[:], -2048, 2047, samples, milli)
}
