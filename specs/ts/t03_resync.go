package ts

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// ghSync is where the search for a sync byte ends: at a sync byte (0), after 188 other bytes (1), or at the end of
// the stream (2).
type ghSync struct {
	how int
	k   uint64
}

var ghLast ghSync

// ctRealign is the contract of realign for its callers (proved by hvRealign).
//
//verif:contract for=realign
func ctRealign(br bitreader.BitReader) error {
	q := (vc.Pos(br) + 7) &^ 7
	k := uint64(vc.IntRange("sync", 0, 188))
	ghLast.k = k
	if k == 188 {
		vc.Assume(q+1504 <= vc.Len(br))
		ghLast.how = 1
		vc.SetPos(br, q+1504)
		return ErrNoSyncByte
	}
	if vc.Len(br) < q+8*k+8 {
		ghLast.how = 2
		vc.SetPos(br, vc.Len(br))
		return vc.EndErr(br)
	}
	ghLast.how = 0
	vc.Assume(spByte(br, q, k) == SyncByte)
	vc.SetPos(br, q+8*k)
	return nil
}

//verif:loop for=realign n=1
func invRealign(br bitreader.BitReader) {
	i := vc.Iter()
	q := ghAlign
	j := vc.IntRange("j", 0, 187)
	vc.Inv(0 <= i && i <= 188, "the search covers 188 bytes")
	vc.Inv(vc.Pos(br) == q+8*uint64(i) && vc.Pos(br) <= vc.Len(br), "one byte is skipped at a time")
	vc.Inv(j >= i || spByte(br, q, uint64(j)) != SyncByte, "no sync byte is skipped")
	vc.Dec(uint64(188 - i))
}

var ghAlign uint64

//verif:harness prop=T03
//verif:inv invRealign
func hvRealign() {
	for off := uint64(0); off < 8; off++ {
		if vc.U64("off")&7 == off {
			checkRealign(off)
			return
		}
	}
}

// genNoise: some bytes, perhaps a sync byte among them, perhaps a packet.
func genNoise(name string) []byte {
	n := vc.Rnd(name+".noise", 200)
	var d []byte
	for i := uint64(0); i < n; i++ {
		b := byte(vc.Rnd(name+".b", 256, i))
		if b == SyncByte {
			b = 0
		}
		d = append(d, b)
	}
	if vc.Rnd(name+".pk", 6) != 0 {
		d = append(d, genPackets(name, 3)...)
	}
	return d
}

func checkRealign(off uint64) {
	if vc.Native() {
		vc.SetGen("s", genNoise("s"))
	}
	r := vc.NewStream("s", off)
	vc.Assume(vc.EndErr(r) != ErrNoSyncByte)
	q := (off + 7) &^ 7
	ghAlign = q
	j := vc.IntRange("j", 0, 187)
	err := realign(r)
	vc.Cover("search ends")
	if err == nil {
		k := (vc.Pos(r) - q) / 8
		vc.Cover("sync byte found")
		vc.Assert(vc.Pos(r) == q+8*k && k < 188 && vc.Pos(r)+8 <= vc.Len(r), "the search stays within 188 bytes")
		vc.Assert(spByte(r, q, k) == SyncByte, "the search stops at a sync byte")
		vc.Assert(uint64(j) >= k || spByte(r, q, uint64(j)) != SyncByte, "no sync byte is skipped")
	} else if err == ErrNoSyncByte {
		vc.Cover("no sync byte")
		vc.Assert(vc.Pos(r) == q+1504, "188 bytes are searched")
		vc.Assert(spByte(r, q, uint64(j)) != SyncByte, "no sync byte is overlooked")
	} else {
		vc.Cover("end of stream")
		vc.Assert(err == vc.EndErr(r), "the stream's error is returned")
		vc.Assert(vc.Len(r) < q+1504 && (q+8*uint64(j)+8 > vc.Len(r) || spByte(r, q, uint64(j)) != SyncByte), "only when it ends before a sync byte")
	}
}

//verif:harness prop=T03
//verif:use ctRealign ctAdaptationField
func hvResync() {
	for off := uint64(0); off < 8; off++ {
		if vc.U64("off")&7 == off {
			resync(off)
			return
		}
	}
}

func resync(off uint64) {
	if vc.Native() {
		vc.SetGen("s", genNoise("s"))
	}
	r := vc.NewStream("s", off)
	if off == 0 {
		vc.Assume(vc.Len(r) < 8 || spByte(r, 0, 0) != SyncByte)
	}
	q := (off + 7) &^ 7
	if vc.Native() {
		ghLast = ghSync{how: 1, k: 188}
		for k := uint64(0); k < 188; k++ {
			if q+8*k+8 > vc.Len(r) {
				ghLast = ghSync{how: 2, k: k}
				break
			}
			if spByte(r, q, k) == SyncByte {
				ghLast = ghSync{how: 0, k: k}
				break
			}
		}
	} else {
		ghLast = ghSync{how: 2}
	}
	p := spAnyPacket("old")
	err := p.Next(r)
	vc.Cover("packet read")
	switch ghLast.how {
	case 1:
		vc.Cover("no sync byte")
		vc.Assert(err == ErrNoSyncByte, "no sync byte among 188 bytes is reported")
	case 2:
		vc.Cover("end of stream")
		vc.Assert(err == vc.EndErr(r), "the end of the stream is reported")
	default:
		vc.Cover("resynchronised")
		packetIs(r, q+8*ghLast.k, p, err)
	}
}
