package ts

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// spByte is byte i of the packet whose sync byte is at bit position p.
func spByte(r bitreader.BitReader, p uint64, i uint64) uint64 { return vc.Bits(r, p+8*i, 8) }

// spPrivateFits: the private data and extension lengths inside the adaptation field at p stay within it.
func spFieldWellFormed(r bitreader.BitReader, p uint64) bool {
	L := spByte(r, p, 4)
	if L > 183 {
		return false
	}
	if L == 0 {
		return true
	}
	rem := L - 1
	flags := spByte(r, p, 5)
	at := uint64(6)
	if flags&0x10 != 0 && rem >= 6 {
		rem -= 6
		at += 6
	}
	if flags&0x08 != 0 && rem >= 6 {
		rem -= 6
		at += 6
	}
	if flags&0x04 != 0 && rem >= 1 {
		rem -= 1
		at += 1
	}
	if flags&0x02 != 0 && rem >= 1 {
		n := spByte(r, p, at)
		if n > rem-1 {
			return false
		}
		rem -= n + 1
		at += n + 1
	}
	if flags&0x01 != 0 && rem >= 2 {
		n := spByte(r, p, at)
		if n > rem-1 {
			return false
		}
	}
	return true
}

// fieldWellFormed is spFieldWellFormed, as an uninterpreted symbol for callers that need not look into it.
func fieldWellFormed(r bitreader.BitReader, p uint64) bool {
	if vc.Native() {
		return spFieldWellFormed(r, p)
	}
	good := vc.UFBool("ts.fieldWellFormed", p)
	vc.Assume(!good || spByte(r, p, 4) <= 183) // proved with the contract
	return good
}

// genPacket builds a packet for native runs: k varies the kind.
func genPacket(name string, k uint64) []byte {
	b := make([]byte, 188)
	for i := range b {
		b[i] = byte(vc.Rnd(name, 256, k, uint64(i)))
	}
	b[0] = SyncByte
	switch vc.Rnd(name+".kind", 8, k) {
	case 0, 1:
		b[3] = b[3]&0xcf | 0x30
		b[4] = byte(vc.Rnd(name+".L", 184, k))
	case 2:
		b[3] = b[3]&0xcf | 0x20
		b[4] = 183
	case 3:
		b[3] = b[3]&0xcf | 0x20
		b[4] = byte(vc.Rnd(name+".L", 256, k))
	case 4:
		b[3] = b[3]&0xcf | 0x30
		b[4] = byte(vc.Rnd(name+".L", 256, k))
	case 5:
		b[3] = b[3] & 0xcf
	default:
		b[3] = b[3]&0xcf | 0x10
	}
	if b[3]&0x20 != 0 && vc.Rnd(name+".mild", 4, k) != 0 {
		// flags that fit
		b[5] = byte(vc.Rnd(name+".flags", 256, k))
		at := 6
		if b[5]&0x10 != 0 {
			at += 6
		}
		if b[5]&8 != 0 {
			at += 6
		}
		if b[5]&4 != 0 {
			at++
		}
		if b[5]&2 != 0 {
			b[at] = byte(vc.Rnd(name+".priv", 12, k))
			at += 1 + int(b[at])
		}
		if b[5]&1 != 0 {
			b[at] = byte(vc.Rnd(name+".ext", 16, k))
		}
	}
	return b
}

func genPackets(name string, n int) []byte {
	var d []byte
	for i := 0; i < n; i++ {
		d = append(d, genPacket(name, uint64(i))...)
	}
	if vc.Rnd(name+".cut", 3) == 0 && len(d) > 0 {
		d = d[:vc.Rnd(name+".cutat", uint64(len(d)))]
	}
	return d
}

//verif:harness prop=T01
//verif:use ctAdaptationField
func hvPacketNext() {
	if vc.Native() {
		vc.SetGen("s", genPackets("s", 2))
	}
	r := vc.NewStream("s", 0)
	vc.Assume(vc.Len(r) >= 8 && spByte(r, 0, 0) == SyncByte)
	p := spAnyPacket("old")
	err := p.Next(r)
	vc.Cover("packet read")
	packetIs(r, 0, p, err)
}

// packetIs: p and err are the result of reading the packet whose sync byte is at bit position p0.
func packetIs(r *vc.Stream, p0 uint64, p *Packet, err error) {
	afc := vc.Bits(r, p0+26, 2)
	L := spByte(r, p0, 4)
	whole := vc.Len(r) >= p0+1504
	good := afc&2 == 0 || fieldWellFormed(r, p0)
	if !whole || !good {
		vc.Cover("bad packet")
		vc.Assert(err != nil, "a truncated or malformed packet is an error")
		return
	}
	vc.Assert(err == nil, "a well-formed packet is accepted")
	if err != nil {
		return
	}
	vc.Cover("good packet")
	vc.Assert(p.TransportErrorIndicator == (vc.Bits(r, p0+8, 1) == 1), "transport error indicator")
	vc.Assert(p.PayloadUnitStartIndicator == (vc.Bits(r, p0+9, 1) == 1), "payload unit start indicator")
	vc.Assert(p.TransportPriority == (vc.Bits(r, p0+10, 1) == 1), "transport priority")
	vc.Assert(uint64(p.PID) == vc.Bits(r, p0+11, 13), "PID")
	vc.Assert(uint64(p.TransportScramblingControl) == vc.Bits(r, p0+24, 2), "scrambling control")
	vc.Assert(uint64(p.AdaptationFieldControl) == afc, "adaptation field control")
	vc.Assert(uint64(p.ContinuityCounter) == vc.Bits(r, p0+28, 4), "continuity counter")
	vc.Assert((p.AdaptationField != nil) == (afc&2 != 0), "adaptation field present exactly when signalled")
	head := uint64(4)
	if afc&2 != 0 {
		head = 5 + L
	}
	n := uint64(0)
	if afc&1 != 0 {
		n = 188 - head
	}
	vc.Assert(uint64(len(p.Payload)) == n, "payload length")
	vc.AssertAll("payload bytes", int(n), func(i int) bool { return uint64(p.Payload[i]) == spByte(r, p0, head+uint64(i)) })
	vc.Assert(vc.Pos(r) == p0+1504, "exactly 188 bytes are consumed")
}

// hvPacketNew: the constructor reads one packet as Next does.
//
//verif:harness prop=T01
func hvPacketNew() {
	if vc.Native() {
		vc.SetGen("s", genPackets("s", 1))
	}
	r := vc.NewStream("s", 0)
	vc.Assume(vc.Len(r) >= 1504 && spByte(r, 0, 0) == SyncByte && vc.Bits(r, 26, 2) == 1)
	p, err := NewPacket(r)
	vc.Cover("packet read")
	vc.Assert(err == nil && p != nil && uint64(p.PID) == vc.Bits(r, 11, 13) && len(p.Payload) == 184 && p.AdaptationField == nil, "NewPacket reads a packet")
	vc.AssertAll("payload bytes", 184, func(i int) bool { return uint64(p.Payload[i]) == spByte(r, 0, 4+uint64(i)) })
	vc.Assert(vc.Pos(r) == 1504, "exactly 188 bytes are consumed")
}

var _ io.Reader
