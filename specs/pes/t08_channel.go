package pes

import (
	"github.com/32bitkid/mpeg/internal/vc"
)

// The channel delivers packets 0, 1, ... with arbitrary payloads, and is then closed.
func pcMore(k uint64) bool        { return vc.UFBool("pc.more", k) }
func pcLen(k uint64) int          { return vc.UFInt("pc.len", k) }
func pcByte(k uint64, i int) byte { return vc.UFU8("pc.byte", k, uint64(i)) }

var ghGot uint64 // packets received
var ghOutN int   // slices sent
var ghOver bool  // the input has been closed

//verif:loop for=PacketChannel.PayloadOnly$1 n=1
func invPESPayloadOnly() {
	vc.Inv(uint64(ghOutN) == ghGot && ghGot < 1<<62+1 && !ghOver, "one payload per packet")
}

//verif:harness prop=T08
//verif:inv invPESPayloadOnly
func hvPESPayloadOnly() {
	if vc.Native() {
		return
	}
	ghGot, ghOutN, ghOver = 0, 0, false
	in := make(chan *Packet)
	vc.OnRecv(in, func() (*Packet, bool) {
		k := ghGot
		if ghOver || !pcMore(k) {
			ghOver = true
			return nil, false
		}
		vc.Assume(k < 1<<62 && 0 <= pcLen(k) && pcLen(k) <= 1<<40)
		ghGot = k + 1
		p := new(Packet)
		vc.Fresh("pc.pk", p)
		n := pcLen(k)
		p.Payload = vc.ByteSlice("pc.payload", n)
		vc.SetSeq(p.Payload, 0, n, func(i int) byte { return pcByte(k, i) })
		return p, true
	})
	out := PacketChannel(in).PayloadOnly()
	vc.OnSend(out, func(b []byte) {
		vc.Cover("payload sent")
		k := ghGot
		vc.Assert(k > 0 && len(b) == pcLen(k-1) && uint64(ghOutN)+1 == k && !ghOver, "each payload is sent once, in order")
		vc.AssertAll("payloads are sent unaltered", len(b), func(i int) bool { return b[i] == pcByte(k-1, i) })
		ghOutN++
	})
	vc.RunSpawned()
	vc.Cover("end")
	vc.Assert(vc.IsClosed(out) && ghOver && uint64(ghOutN) == ghGot, "the output is closed when the input is, after every payload")
}
