package pes

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// An abstract packet source: the k-th call of Next (from 0) either fails with pErr(k) or delivers packet k with a
// payload of pLen(k) bytes. pSum(k): payload bytes delivered before call k; pOut(i): byte i of their concatenation.

func pLen(k uint64) int   { return vc.UFInt("pes.plen", k) }
func pErr(k uint64) error { return vc.UFErr("pes.err", k) }
func pSum(k uint64) int   { return vc.UFInt("pes.sum", k) }
func pOut(i int) byte     { return vc.UFU8("pes.out", uint64(i)) }

const pLimit = 1 << 50

// ctPESNext is what callers know of Next.
//
//verif:contract for=(*Packet).Next
func ctPESNext(p *Packet, br bitreader.BitReader) error {
	k := vc.Pos(br)
	vc.Assume(k < 1<<62) // nobody lives that long
	vc.SetPos(br, k+1)
	vc.Fresh("pk", p)
	p.Header = nil
	if pErr(k) != nil {
		// what a failed call leaves in the packet is unspecified
		vc.Assume(pSum(k+1) == pSum(k))
		return pErr(k)
	}
	vc.Assume(0 <= pLen(k) && pLen(k) <= 1<<40)
	vc.Assume(pSum(k) >= 0 && pSum(k) <= pLimit)
	vc.Assume(pSum(k+1) == pSum(k)+pLen(k))
	n := pLen(k)
	p.Payload = vc.ByteSlice("pk.payload", n)
	vc.SetSeq(p.Payload, 0, n, func(i int) byte { return pOut(pSum(k) + i) })
	return nil
}

var ghR bitreader.BitReader
var ghDone int     // bytes delivered by earlier calls
var ghP []byte     // the caller's buffer
var ghStart uint64 // calls done before this Read

//verif:loop for=(*payloadReader).read n=1
func invDrain(r *payloadReader, p []byte, n int) {
	k := vc.Pos(ghR)
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(p, ghP, n), "the rest of the buffer is filled next")
	vc.Inv(n <= pSum(k)-ghDone, "no more than the remainder is delivered")
	vc.InvSeq(ghP, n, func(i int) byte { return pOut(ghDone + i) }, "the remainder is delivered first")
	vc.InvBuf(&r.remainder, pSum(k)-ghDone-n, func(i int) byte { return pOut(ghDone + n + i) }, "what is not delivered stays in the remainder")
	vc.Dec(uint64(len(p)))
}

//verif:loop for=(*payloadReader).read n=2
func invFill(r *payloadReader, p []byte, n int, remainder []byte) {
	k := vc.Pos(ghR)
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(p, ghP, n), "the rest of the buffer is filled next")
	vc.Inv(pSum(k) >= 0 && pSum(k) <= pLimit+1<<40, "sums stay bounded")
	vc.Inv(k >= ghStart, "packets are read in order")
	vc.InvSeq(ghP, n, func(i int) byte { return pOut(ghDone + i) }, "delivered bytes are the payload bytes in order")
	vc.Inv(len(remainder) <= 1<<40, "at most one payload is left over")
	vc.InvBuf(&r.remainder, vc.IteInt(len(p) > 0, 0, pSum(k)-ghDone-n-len(remainder)), func(i int) byte { return pOut(ghDone + n + i) }, "the remainder has been drained")
	vc.Inv(vc.BufLen(&r.remainder)+len(remainder) == pSum(k)-ghDone-n, "nothing is lost")
	vc.Inv(len(remainder) == 0 || vc.BufLen(&r.remainder) == 0, "the leftover follows the delivered bytes")
	vc.Inv(len(p) == 0 || len(remainder) == 0, "the leftover is kept only when the buffer is full")
	vc.InvSeq(remainder, len(remainder), func(i int) byte { return pOut(ghDone + n + i) }, "the leftover is the next part")
}

// hvPESRead: Read preserves the reader's invariant and delivers the next bytes, from any state it can be in.
//
//verif:harness prop=P02,R01
//verif:use ctPESNext
//verif:inv invDrain invFill
func hvPESRead() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghR = s
	k := vc.U64("k")
	vc.Assume(k < 1<<39)
	vc.SetPos(s, k)
	pk := new(Packet)
	vc.Any("old", pk)
	pk.Payload = vc.ByteSlice("old.payload", vc.IntRange("old.n", 0, 1<<40))
	r := &payloadReader{br: s, currentPacket: pk}
	ghDone = vc.Int("done")
	vc.Assume(0 <= ghDone && ghDone <= pSum(k) && pSum(k) <= pLimit)
	vc.SetBuf(&r.remainder, pSum(k)-ghDone, func(i int) byte { return pOut(ghDone + i) })
	if vc.Bool("pending") {
		// the error that ended the data delivered last
		vc.Assume(k > 0 && pErr(k-1) != nil && ghDone == pSum(k))
		r.err = pErr(k - 1)
	}
	pCheck(r, s)
}

func pCheck(r *payloadReader, s *vc.Stream) {
	k := vc.Pos(s)
	ghStart = k
	N := vc.IntRange("N", 0, 1<<40)
	ghP = vc.ByteSlice("p", N)
	pending := r.err != nil
	n, err := r.Read(ghP)
	k2 := vc.Pos(s)
	vc.Cover("read")
	vc.Assert(n == 0 || err == nil, "no data is delivered along with an error")
	vc.Assert(0 <= n && n <= N, "the count is within the buffer")
	vc.AssertAll("delivered bytes are the payload bytes in order", n, func(i int) bool { return ghP[i] == pOut(ghDone+i) })
	if err == nil {
		vc.Cover("data")
		vc.Assert(n > 0 || N == 0, "a successful read makes progress")
	} else {
		vc.Cover("stream error")
		vc.Assert((k2 > k || pending && k2 > 0) && err == pErr(k2-1) && ghDone+n == pSum(k2), "an error is reported after every byte parsed before it")
		vc.Assert(r.err == nil, "an error is reported once")
	}
	// the class invariant again
	vc.Assert(r.err == nil || k2 > 0 && r.err == pErr(k2-1) && ghDone+n == pSum(k2), "the error that ended the data is kept for the next call")
	vc.Assert(r.currentPacket != nil, "there is a packet object")
	vc.Assert(vc.BufLen(&r.remainder) == pSum(k2)-ghDone-n, "the remainder holds what is not yet delivered (length)")
	vc.AssertAll("the remainder holds what is not yet delivered", pSum(k2)-ghDone-n, func(i int) bool { return vc.BufAt(&r.remainder, i) == pOut(ghDone+n+i) })
	vc.Assert(r.br == bitreader.BitReader(s), "the stream stays the same")
}

// hvPESReadNew: a new reader is in a state of the invariant; the first Read works.
//
//verif:harness prop=P02,R01
//verif:use ctPESNext
//verif:inv invDrain invFill
func hvPESReadNew() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghR = s
	ghDone = 0
	vc.Assume(pSum(0) == 0)
	r := NewPayloadReader(s).(*payloadReader)
	vc.Assert(vc.BufLen(&r.remainder) == 0, "a new reader has delivered nothing")
	pCheck(r, s)
}
