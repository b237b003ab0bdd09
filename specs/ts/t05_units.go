package ts

import (
	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
)

// tsStart: packet k starts a unit. tsBegun(k): a unit has been started since the beginning or the last error.
// tsUnit(k): the number of units started before call k.
func tsStart(k uint64) bool { return tsTestK("where", k) && tsPUSI(k) }
func tsUnit(k uint64) int   { return vc.UFInt("ts.unit", k) }

// tsEnd: call k ends the unit before it: it delivers the start of the next one, or fails.
func tsEnd(k uint64) bool { return tsBegun(k) && (tsErr(k) != nil || tsStart(k)) }

func tsUnitStep(k uint64) {
	vc.Assume(tsBegun(k+1) == (tsBegun(k) || tsStart(k)))
	vc.Assume(tsUnit(k+1) == tsUnit(k)+vc.IteInt(tsStart(k), 1, 0))
	vc.Assume(0 <= tsPLen(k) && tsPLen(k) <= 184)
	vc.Assume(tsSum(k) >= 0 && tsSum(k) <= tsLimit)
	vc.Assume(tsSum(k+1) == tsSum(k)+vc.IteInt(tsMatch(k), tsPLen(k), 0))
}

// spIsPacket: p has the header fields and payload length of packet k.
func spIsPacket(p *Packet, k uint64) bool {
	return p.PID == tsPID(k) && p.PayloadUnitStartIndicator == tsPUSI(k) && p.TransportPriority == tsPrio(k) &&
		p.TransportErrorIndicator == tsTEI(k) && p.ContinuityCounter == tsCC(k) && len(p.Payload) == tsPLen(k)
}

var ghUnit int // the unit being delivered

//verif:loop for=(*payloadUnitBuffer).fill n=1
func invUnitSkip(stream *payloadUnitBuffer) {
	k := vc.Pos(ghR)
	vc.Inv(len(stream.currentPacket.Payload) <= 184 && vc.BufLen(&stream.buffer) == 0 && stream.err == nil, "nothing is kept before a unit start")
	vc.Inv(k == ghStart && !stream.currentPacket.PayloadUnitStartIndicator && !tsBegun(k) && tsSum(k) == ghDone && tsUnit(k) == ghUnit ||
		k > ghStart && tsErr(k-1) == nil && spIsPacket(stream.currentPacket, k-1) && !tsBegun(k-1) && tsBegun(k) == tsStart(k-1), "each packet is looked at")
	vc.Inv(k == ghStart || tsUnit(k-1) == ghUnit && tsUnit(k) == ghUnit+vc.IteInt(tsStart(k-1), 1, 0), "no unit start is overlooked")
	vc.Inv(k == ghStart || tsSum(k-1) == ghDone && tsSum(k) == ghDone+vc.IteInt(tsMatch(k-1), tsPLen(k-1), 0), "nothing is delivered before a unit start")
	vc.InvSeq(stream.currentPacket.Payload, vc.IteInt(k > ghStart, len(stream.currentPacket.Payload), 0), func(i int) byte { return tsPayload(k-1, i) }, "the payload belongs to the packet")
}

//verif:loop for=(*payloadUnitBuffer).fill n=2
func invUnitFill(stream *payloadUnitBuffer) {
	k := vc.Pos(ghR)
	vc.Inv(k >= ghStart && k > 0 && tsErr(k-1) == nil && spIsPacket(stream.currentPacket, k-1), "each packet is looked at")
	vc.Inv(tsBegun(k) && tsUnit(k) == ghUnit+1 && stream.err == nil, "the unit goes on until the next start")
	vc.Inv(len(stream.currentPacket.Payload) <= 184 && tsSum(k-1) >= ghDone && tsSum(k-1) <= tsLimit && tsSum(k) == tsSum(k-1)+vc.IteInt(tsMatch(k-1), tsPLen(k-1), 0), "sums follow the packets")
	vc.InvSeq(stream.currentPacket.Payload, len(stream.currentPacket.Payload), func(i int) byte { return tsPayload(k-1, i) }, "the payload belongs to the packet")
	vc.InvBuf(&stream.buffer, tsSum(k-1)-ghDone, func(i int) byte { return tsOut(ghDone + i) }, "the buffer holds the payloads of the unit so far")
}

//verif:loop for=(*payloadUnitBuffer).read n=1
func invUnitDrain(stream *payloadUnitBuffer, p []byte, n int) {
	k := vc.Pos(ghR)
	vc.Inv(0 <= n && n <= len(ghP) && vc.IsTail(p, ghP, n), "the rest of the buffer is filled next")
	vc.Inv(n <= tsSum(k-1)-ghDone && stream.state == ready, "no more than the unit is delivered")
	vc.InvSeq(ghP, n, func(i int) byte { return tsOut(ghDone + i) }, "bytes are delivered in order")
	vc.InvBuf(&stream.buffer, tsSum(k-1)-ghDone-n, func(i int) byte { return tsOut(ghDone + n + i) }, "what is not delivered stays in the buffer")
	vc.Dec(uint64(len(p)))
}

//verif:harness prop=T05,R01
//verif:use ctPacketNext
//verif:inv invUnitSkip invUnitFill invUnitDrain
//verif:budget 600
func hvUnitRead() {
	if vc.Native() {
		return
	}
	ghUnits = true
	s := vc.NewStream("s", 0)
	ghR = s
	k := vc.U64("k")
	vc.Assume(k < 1<<39)
	vc.SetPos(s, k)
	r := &payloadUnitBuffer{br: s, where: tsWhere, startIndicator: PacketTester(tsWhere).And(IsPayloadUnitStart)}
	ghDone, ghUnit = vc.Int("done"), vc.Int("unit")
	vc.Assume(0 <= ghDone && ghDone <= tsSum(k) && tsSum(k) <= tsLimit)
	pk := new(Packet)
	vc.Any("old", pk)
	pk.Payload = vc.ByteSlice("old.payload", vc.IntRange("old.n", 0, 184))
	// class invariant
	if vc.Bool("ready") {
		r.state = ready
		r.currentPacket = pk
		vc.Assume(k > 0 && tsEnd(k-1) && ghDone <= tsSum(k-1) && tsUnit(k-1) == ghUnit)
		if tsErr(k-1) != nil {
			r.err = tsErr(k - 1)
			vc.Assume(!tsBegun(k) && tsUnit(k) == ghUnit && tsSum(k) == tsSum(k-1))
		} else {
			vc.Assume(spIsPacket(pk, k-1))
			tsUnitStep(k - 1)
			vc.SetSeq(pk.Payload, 0, len(pk.Payload), func(i int) byte { return tsPayload(k-1, i) })
		}
		vc.SetBuf(&r.buffer, tsSum(k-1)-ghDone, func(i int) byte { return tsOut(ghDone + i) })
	} else {
		r.state = drained
		if vc.Bool("failed") {
			r.currentPacket = pk
			vc.Assume(k > 0 && tsErr(k-1) != nil && !tsBegun(k) && ghDone == tsSum(k) && tsUnit(k) == ghUnit)
			r.err = tsErr(k - 1)
		} else if vc.Bool("between") {
			r.currentPacket = pk
			vc.Assume(k > 0 && tsErr(k-1) == nil && tsEnd(k-1) && ghDone == tsSum(k-1) && tsUnit(k-1) == ghUnit)
			vc.Assume(spIsPacket(pk, k-1))
			tsUnitStep(k - 1)
			vc.SetSeq(pk.Payload, 0, len(pk.Payload), func(i int) byte { return tsPayload(k-1, i) })
		} else {
			vc.Assume(!tsBegun(k) && ghDone == tsSum(k) && tsUnit(k) == ghUnit)
		}
	}
	checkUnitRead(r, s)
}

func checkUnitRead(r *payloadUnitBuffer, s *vc.Stream) {
	k := vc.Pos(s)
	ghStart = k
	wasReady, hadErr := r.state == ready, r.err
	N := vc.IntRange("N", 0, 1<<40)
	ghP = vc.ByteSlice("p", N)
	n, err := r.Read(ghP)
	k2 := vc.Pos(s)
	unit := ghUnit
	vc.Cover("read")
	vc.Assert(n == 0 || err == nil, "no data is delivered along with an error")
	if r.pending != nil {
		vc.Assert(n > 0 && err == nil, "only an error that follows data is kept")
		err = r.pending // the next call reports it
	}
	vc.Assert(0 <= n && n <= N, "the count is within the buffer")
	vc.AssertAll("bytes are delivered in order", n, func(i int) bool { return ghP[i] == tsOut(ghDone+i) })
	vc.Assert(r.br == bitreader.BitReader(s), "the stream stays the same")
	if err != nil && err != EOP || hadErr != nil && !wasReady {
		vc.Cover("stream error")
		vc.Assert(n == 0 && !wasReady, "a stream error is reported after the last unit")
		vc.Assert(hadErr != nil && k2 == k && err == hadErr || hadErr == nil && k2 > k && err == tsErr(k2-1) && !tsBegun(k2-1), "the error of the stream is reported")
		vc.Assert(r.state == drained && r.err == nil && r.currentPacket == nil && ghDone == tsSum(k2) && !tsBegun(k2), "the search for a unit start begins again")
		vc.Assert(vc.BufLen(&r.buffer) == 0, "no bytes are left over")
		return
	}
	vc.Assert(wasReady == (k2 == k), "packets are read exactly at the beginning of a unit")
	if !wasReady {
		unit++
	}
	end := tsSum(k2 - 1)
	vc.Assert(k2 > 0 && tsEnd(k2-1) && tsUnit(k2-1) == unit, "a unit goes from its start to the next start or error")
	vc.Assert(ghDone+n <= end, "a read never goes past the end of the unit")
	if err == EOP {
		vc.Cover("end of packet")
		vc.Assert(ghDone+n == end && r.state == drained, "end of packet is reported at the end of the unit")
	} else {
		vc.Cover("data")
		vc.Assert(n == N && r.state == ready, "a read fills the buffer unless the unit ends")
	}
	// the class invariant again
	vc.Assert(vc.BufLen(&r.buffer) == end-ghDone-n, "the buffer holds the rest of the unit (length)")
	vc.AssertAll("the buffer holds the rest of the unit", end-ghDone-n, func(i int) bool { return vc.BufAt(&r.buffer, i) == tsOut(ghDone+n+i) })
	vc.Assert(r.err == tsErr(k2-1) && r.currentPacket != nil, "the error that ended the unit is kept")
	if tsErr(k2-1) == nil {
		pk := r.currentPacket
		vc.Assert(spIsPacket(pk, k2-1), "the packet that starts the next unit is kept")
		vc.AssertAll("the payload that starts the next unit is kept", len(pk.Payload), func(i int) bool { return pk.Payload[i] == tsPayload(k2-1, i) })
	} else {
		vc.Assert(!tsBegun(k2) && tsUnit(k2) == unit && tsSum(k2) == end, "after an error no unit is open")
	}
}

// hvUnitPending: the end that followed the data delivered last is reported by the next call, and nothing else happens.
//
//verif:harness prop=T05,R01
func hvUnitPending() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	k := vc.U64("k")
	vc.SetPos(s, k)
	pk := new(Packet)
	kept := vc.Err("kept")
	r := &payloadUnitBuffer{br: s, where: tsWhere, startIndicator: PacketTester(tsWhere).And(IsPayloadUnitStart), currentPacket: pk, state: drained, err: kept, pending: EOP}
	ghP = vc.ByteSlice("p", vc.IntRange("N", 0, 1<<40))
	n, err := r.Read(ghP)
	vc.Cover("pending end")
	vc.Assert(n == 0 && err == EOP && r.pending == nil, "the end of the unit is reported by the next call")
	vc.Assert(vc.Pos(s) == k && r.state == drained && r.currentPacket == pk && r.err == kept && vc.BufLen(&r.buffer) == 0 && r.br == bitreader.BitReader(s), "nothing else happens")
}

//verif:harness prop=T05,R01
//verif:use ctPacketNext
//verif:inv invUnitSkip invUnitFill invUnitDrain
func hvUnitNew() {
	if vc.Native() {
		return
	}
	ghUnits = true
	s := vc.NewStream("s", 0)
	ghR = s
	ghDone, ghUnit = 0, 0
	vc.Assume(tsSum(0) == 0 && !tsBegun(0) && tsUnit(0) == 0)
	r := NewPayloadUnitReader(s, tsWhere).(*payloadUnitBuffer)
	vc.Assert(r.state == drained && r.err == nil && r.currentPacket == nil && vc.BufLen(&r.buffer) == 0, "a new reader has delivered nothing")
	checkUnitRead(r, s)
}
