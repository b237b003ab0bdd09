package ts

import "github.com/32bitkid/mpeg/internal/vc"

// spAnyPacket is a packet with arbitrary contents.
func spAnyPacket(name string) *Packet {
	p := new(Packet)
	vc.Any(name, p)
	p.Payload = p.payloadBuffer[0:vc.IntRange(name+".plen", 0, len(p.payloadBuffer))]
	if vc.Bool(name + ".hasaf") {
		p.AdaptationField = new(AdaptationField)
	}
	return p
}

//verif:harness prop=T07
func hvTesters() {
	p := spAnyPacket("p")
	p0 := *p
	pid := vc.U32("pid")
	a, b := vc.Bool("a"), vc.Bool("b")
	var ta PacketTester = func(q *Packet) bool { vc.Assert(q == p, "operands test the same packet"); return a }
	var tb PacketTester = func(q *Packet) bool { vc.Assert(q == p, "operands test the same packet"); return b }
	vc.Cover("testers")
	vc.Assert(IsPID(pid)(p) == (p0.PID == pid), "IsPID")
	vc.Assert(IsPayloadUnitStart(p) == p0.PayloadUnitStartIndicator, "IsPayloadUnitStart")
	vc.Assert(ta.Not()(p) == !a, "Not")
	vc.Assert(ta.And(tb)(p) == (a && b), "And")
	vc.Assert(ta.Or(tb)(p) == (a || b), "Or")
	vc.Assert(IsPID(pid).Not()(p) == (p0.PID != pid), "Not of IsPID")
	vc.Assert(IsPID(pid).And(IsPayloadUnitStart)(p) == (p0.PID == pid && p0.PayloadUnitStartIndicator), "And of testers")
	vc.Assert(IsPID(pid).Or(IsPayloadUnitStart).Not()(p) == !(p0.PID == pid || p0.PayloadUnitStartIndicator), "Or of testers")
	// testing twice gives the same answer, and nothing changes
	t := IsPID(pid).And(ta.Not()).Or(IsPayloadUnitStart.And(tb))
	r1 := t(p)
	r2 := t(p)
	vc.Assert(r1 == r2 && r1 == ((p0.PID == pid && !a) || (p0.PayloadUnitStartIndicator && b)), "testing is repeatable")
	vc.Assert(p.TransportErrorIndicator == p0.TransportErrorIndicator && p.PayloadUnitStartIndicator == p0.PayloadUnitStartIndicator &&
		p.TransportPriority == p0.TransportPriority && p.PID == p0.PID && p.TransportScramblingControl == p0.TransportScramblingControl &&
		p.AdaptationFieldControl == p0.AdaptationFieldControl && p.ContinuityCounter == p0.ContinuityCounter &&
		p.AdaptationField == p0.AdaptationField && len(p.Payload) == len(p0.Payload), "testing leaves the packet alone")
	vc.AssertAll("testing leaves the payload alone", len(p.payloadBuffer), func(i int) bool { return p.payloadBuffer[i] == p0.payloadBuffer[i] })
}
