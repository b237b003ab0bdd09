package ts

import (
	"bytes"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// An abstract packet source: the k-th call of Next (from 0) either fails with tsErr(k) or delivers packet k, whose
// header fields, payload length and payload are arbitrary. Position k of the abstract stream stands for "k calls done".

func tsPID(k uint64) uint32 { return vc.UFU32("ts.pid", k) }
func tsPUSI(k uint64) bool  { return vc.UFBool("ts.pusi", k) }
func tsPrio(k uint64) bool  { return vc.UFBool("ts.prio", k) }
func tsTEI(k uint64) bool   { return vc.UFBool("ts.tei", k) }
func tsCC(k uint64) uint32  { return vc.UFU32("ts.cc", k) }
func tsPLen(k uint64) int   { return vc.UFInt("ts.plen", k) }
func tsErr(k uint64) error  { return vc.UFErr("ts.err", k) }

// Testers: arbitrary functions of the packet's header.

func tsTest(name string, p *Packet) bool {
	return vc.UFBool(name, uint64(p.PID), vc.Ite64(p.PayloadUnitStartIndicator, 1, 0), vc.Ite64(p.TransportPriority, 1, 0), vc.Ite64(p.TransportErrorIndicator, 1, 0), uint64(p.ContinuityCounter))
}

func tsTestK(name string, k uint64) bool {
	return vc.UFBool(name, uint64(tsPID(k)), vc.Ite64(tsPUSI(k), 1, 0), vc.Ite64(tsPrio(k), 1, 0), vc.Ite64(tsTEI(k), 1, 0), uint64(tsCC(k)))
}

func tsWhere(p *Packet) bool { return tsTest("where", p) }
func tsSkip(p *Packet) bool  { return tsTest("skip", p) }
func tsTake(p *Packet) bool  { return tsTest("take", p) }

// Ghost functions, by recursion over the calls: tsBegun(k): a packet before call k satisfied the skip-until
// condition; tsCut(k): one after that failed the take-while condition; tsSum(k): the payload bytes delivered by the
// matching packets before call k; tsOut(i): byte i of their concatenation.

func tsBegun(k uint64) bool { return vc.UFBool("ts.begun", k) }
func tsCut(k uint64) bool   { return vc.UFBool("ts.cut", k) }
func tsSum(k uint64) int    { return vc.UFInt("ts.sum", k) }
func tsOut(i int) byte      { return vc.UFU8("ts.out", uint64(i)) }

// tsPayload is byte i of the payload of packet k.
func tsPayload(k uint64, i int) byte {
	return vc.IteU8(tsMatch(k), tsOut(tsSum(k)+i), vc.UFU8("ts.other", k, uint64(i)))
}

// ghUnits selects the ghost functions of the payload unit reader.
var ghUnits bool

func tsMatch(k uint64) bool {
	if ghUnits {
		return tsBegun(k+1) && tsTestK("where", k)
	}
	return tsMatchReader(k)
}

func tsMatchReader(k uint64) bool { return tsBegun(k+1) && !tsCut(k+1) && tsTestK("where", k) }

const tsLimit = 1 << 50

// tsStep: the recursion equations for packet k.
func tsStep(k uint64) {
	vc.Assume(tsBegun(k+1) == (tsBegun(k) || tsTestK("skip", k)))
	vc.Assume(tsCut(k+1) == (tsCut(k) || tsBegun(k+1) && !tsTestK("take", k)))
	vc.Assume(0 <= tsPLen(k) && tsPLen(k) <= 184)
	vc.Assume(tsSum(k) >= 0 && tsSum(k) <= tsLimit)
	vc.Assume(tsSum(k+1) == tsSum(k)+vc.IteInt(tsMatch(k), tsPLen(k), 0))
}

// ctPacketNext is what callers know of Next.
//
//verif:contract for=(*Packet).Next
func ctPacketNext(p *Packet, br bitreader.BitReader) error {
	k := vc.Pos(br)
	vc.Assume(k < 1<<62) // nobody lives that long
	vc.SetPos(br, k+1)
	vc.Fresh("pk", p)
	p.AdaptationField = nil
	if tsErr(k) != nil {
		// what a failed call leaves in the packet is unspecified
		vc.Assume(tsErr(k) != EOP) // not an error of sources
		if ghUnits {
			vc.Assume(!tsBegun(k+1) && tsUnit(k+1) == tsUnit(k) && tsSum(k+1) == tsSum(k))
		} else {
			vc.Assume(tsBegun(k+1) == tsBegun(k) && tsCut(k+1) == tsCut(k) && tsSum(k+1) == tsSum(k))
		}
		return tsErr(k)
	}
	if ghUnits {
		tsUnitStep(k)
	} else if ghDemux {
		tdStep(k)
		vc.Assume(0 <= tsPLen(k) && tsPLen(k) <= 184)
	} else {
		tsStep(k)
	}
	p.PID = tsPID(k)
	p.PayloadUnitStartIndicator = tsPUSI(k)
	p.TransportPriority = tsPrio(k)
	p.TransportErrorIndicator = tsTEI(k)
	p.ContinuityCounter = tsCC(k)
	n := tsPLen(k)
	p.Payload = vc.ByteSlice("pk.payload", n)
	vc.SetSeq(p.Payload, 0, n, func(i int) byte { return tsPayload(k, i) })
	return nil
}

var ghR bitreader.BitReader
var ghDone int     // bytes delivered by earlier calls
var ghP []byte     // the caller's buffer
var ghStart uint64 // calls done before this Read

//verif:loop for=(*payloadReader).read n=1
func invDrain(r *payloadReader, p []byte, n int) {
	k := vc.Pos(ghR)
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(p, ghP, n), "the rest of the buffer is filled next")
	vc.Inv(n <= tsSum(k)-ghDone, "no more than the remainder is delivered")
	vc.InvSeq(ghP, n, func(i int) byte { return tsOut(ghDone + i) }, "the remainder is delivered first")
	vc.InvBuf(&r.remainder, tsSum(k)-ghDone-n, func(i int) byte { return tsOut(ghDone + n + i) }, "what is not delivered stays in the remainder")
	vc.Dec(uint64(len(p)))
}

//verif:loop for=(*payloadReader).read n=2
func invFill(r *payloadReader, p []byte, n int, remainder []byte) {
	k := vc.Pos(ghR)
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(p, ghP, n), "the rest of the buffer is filled next")
	vc.Inv(tsSum(k) >= 0 && tsSum(k) <= tsLimit+184, "sums stay bounded")
	vc.Inv(k >= ghStart && tsBegun(k) && !tsCut(k) && !r.closed, "delivery goes on")
	vc.InvSeq(ghP, n, func(i int) byte { return tsOut(ghDone + i) }, "delivered bytes are the payload bytes in order")
	vc.Inv(len(remainder) <= 184, "at most one payload is left over")
	vc.InvBuf(&r.remainder, vc.IteInt(len(p) > 0, 0, tsSum(k)-ghDone-n-len(remainder)), func(i int) byte { return tsOut(ghDone + n + i) }, "the remainder has been drained")
	vc.Inv(vc.BufLen(&r.remainder)+len(remainder) == tsSum(k)-ghDone-n, "nothing is lost")
	vc.Inv(len(remainder) == 0 || vc.BufLen(&r.remainder) == 0, "the leftover follows the delivered bytes")
	vc.Inv(len(p) == 0 || len(remainder) == 0, "the leftover is kept only when the buffer is full")
	vc.InvSeq(remainder, len(remainder), func(i int) byte { return tsOut(ghDone + n + i) }, "the leftover is the next part")
}

//verif:loop for=(*payloadReader).realign n=1
func invSkip(r *payloadReader) {
	k := vc.Pos(ghR)
	vc.Inv(k >= ghStart && !tsBegun(k) && !tsCut(k) && !r.closed, "nothing is delivered before the skip-until condition holds")
	vc.Inv(tsSum(k) == ghDone, "nothing is delivered before the skip-until condition holds (sum)")
	vc.InvBuf(&r.remainder, 0, func(i int) byte { return 0 }, "nothing is kept before the skip-until condition holds")
}

// hvPayloadRead: Read preserves the reader's invariant and delivers the next bytes, from any state it can be in.
//
//verif:harness prop=T04,R01
//verif:use ctPacketNext
//verif:inv invDrain invFill invSkip
func hvPayloadRead() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghR = s
	k := vc.U64("k")
	vc.Assume(k < 1<<39)
	vc.SetPos(s, k)
	r := &payloadReader{br: s, where: tsWhere, takeWhile: tsTake}
	skips := vc.Bool("skips")
	if skips {
		r.skipUntil = tsSkip
	}
	ghDone = vc.Int("done")
	vc.Assume(0 <= ghDone && ghDone <= tsSum(k) && tsSum(k) <= tsLimit)
	// class invariant
	if vc.Bool("closed") {
		r.closed = true
		r.currentPacket = new(Packet)
		vc.Assume(tsCut(k) && tsBegun(k) && ghDone == tsSum(k))
	} else {
		vc.Assume(!tsCut(k))
		if vc.Bool("running") {
			pk := new(Packet)
			vc.Any("old", pk)
			pk.Payload = vc.ByteSlice("old.payload", vc.IntRange("old.n", 0, 184))
			r.currentPacket = pk
			vc.Assume(tsBegun(k))
		} else {
			vc.Assume(tsBegun(k) == !skips)
			vc.Assume(ghDone == tsSum(k))
		}
	}
	// the error that ended the data delivered last
	if r.currentPacket != nil && vc.Bool("pending") {
		vc.Assume(ghDone == tsSum(k))
		if r.closed {
			r.err = io.EOF
		} else {
			vc.Assume(k > 0 && tsErr(k-1) != nil && tsErr(k-1) != EOP)
			r.err = tsErr(k - 1)
		}
	}
	vc.SetBuf(&r.remainder, tsSum(k)-ghDone, func(i int) byte { return tsOut(ghDone + i) })
	checkRead(r, s)
}

func checkRead(r *payloadReader, s *vc.Stream) {
	k := vc.Pos(s)
	ghStart = k
	skips := r.skipUntil != nil
	N := vc.IntRange("N", 0, 1<<40)
	ghP = vc.ByteSlice("p", N)
	pending := r.err != nil
	n, err := r.Read(ghP)
	k2 := vc.Pos(s)
	vc.Cover("read")
	vc.Assert(n == 0 || err == nil, "no data is delivered along with an error")
	vc.Assert(0 <= n && n <= N, "the count is within the buffer")
	vc.AssertAll("delivered bytes are the payload bytes in order", n, func(i int) bool { return ghP[i] == tsOut(ghDone+i) })
	if err == nil {
		vc.Cover("data")
		vc.Assert(n > 0 || N == 0, "a successful read makes progress")
	} else if tsCut(k2) {
		vc.Cover("cut off")
		vc.Assert(err == io.EOF && ghDone+n == tsSum(k2), "end of stream is reported after the last byte before the cut-off")
	} else {
		vc.Cover("stream error")
		vc.Assert((k2 > k || pending && k2 > 0) && err == tsErr(k2-1) && ghDone+n == tsSum(k2), "a stream error is reported after every byte parsed before it")
	}
	// the class invariant again
	vc.Assert(r.err == nil || r.currentPacket != nil && ghDone+n == tsSum(k2) && (r.closed && r.err == io.EOF || !r.closed && k2 > 0 && r.err == tsErr(k2-1)), "the error that ended the data is kept for the next call")
	vc.Assert(err == nil || r.err == nil, "an error is reported once")
	vc.Assert(r.closed == tsCut(k2) || !r.closed && err == nil && k2 == k, "closed exactly when cut off")
	vc.Assert(!r.closed || tsCut(k2) && tsBegun(k2) && ghDone+n == tsSum(k2), "closed only when everything is delivered")
	vc.Assert(r.closed || r.currentPacket != nil && tsBegun(k2) || r.currentPacket == nil && tsBegun(k2) == !skips && ghDone+n == tsSum(k2), "delivery has begun exactly when recorded")
	vc.Assert(vc.BufLen(&r.remainder) == tsSum(k2)-ghDone-n, "the remainder holds what is not yet delivered (length)")
	vc.AssertAll("the remainder holds what is not yet delivered", tsSum(k2)-ghDone-n, func(i int) bool { return vc.BufAt(&r.remainder, i) == tsOut(ghDone+n+i) })
	vc.Assert(r.br == bitreader.BitReader(s), "the stream stays the same")
}

// hvPayloadNew: a new reader is in a state of the invariant; the first Read works.
//
//verif:harness prop=T04,R01
//verif:use ctPacketNext
//verif:inv invDrain invFill invSkip
func hvPayloadNew() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	ghR = s
	ghDone = 0
	cr := NewPayloadReader(s, tsWhere)
	vc.Assume(tsSum(0) == 0 && !tsCut(0))
	if vc.Bool("skips") {
		cr.SkipUntil(tsSkip)
		vc.Assume(!tsBegun(0))
	} else {
		vc.Assume(tsBegun(0))
	}
	if vc.Bool("takes") {
		cr.TakeWhile(tsTake)
	}
	r := cr.(*payloadReader)
	if !vc.Bool("takes") {
		pk := new(Packet)
		vc.Any("any", pk)
		vc.Assert(r.takeWhile(pk), "without a take-while condition nothing is cut off")
		r.takeWhile = tsTake
	}
	vc.Assert(!r.closed && r.currentPacket == nil && vc.BufLen(&r.remainder) == 0, "a new reader has delivered nothing")
	checkRead(r, s)
}

var _ bytes.Buffer
