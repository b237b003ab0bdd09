package ts

import (
	"github.com/32bitkid/mpeg/internal/vc"
)

// The channel observed is the one registered at ghJ, an arbitrary position.
var ghJ int

// ghDemuxN is the number of channels registered.
var ghDemuxN int

var ghDemuxCh chan *Packet

// tdCount is the number of packets channel ghJ receives from the first k calls.
func tdCount(k uint64) int { return vc.UFInt("td.count", k) }

// tdOpen: packet k is between the skip-until and the take-while condition.
func tdOpen(k uint64) bool { return tsBegun(k+1) && !tsCut(k+1) }

// tdTestK is the outcome of channel i's condition for packet k.
func tdTestK(i int, k uint64) bool {
	return vc.UFBool("td.test", uint64(i), uint64(tsPID(k)), vc.Ite64(tsPUSI(k), 1, 0), vc.Ite64(tsPrio(k), 1, 0), vc.Ite64(tsTEI(k), 1, 0), uint64(tsCC(k)))
}

func tdMatch(k uint64) bool { return ghJ >= 0 && tdOpen(k) && tdTestK(ghJ, k) }

func tdStep(k uint64) {
	vc.Assume(tsBegun(k+1) == (tsBegun(k) || tsTestK("skip", k)))
	vc.Assume(tsCut(k+1) == (tsCut(k) || tsBegun(k+1) && !tsTestK("take", k)))
	vc.Assume(tdCount(k+1) == tdCount(k)+vc.IteInt(tdMatch(k), 1, 0))
}

var ghDemux bool
var ghSent int
var ghFinished bool

// tdSent is what must hold when a packet is sent on any channel.
func tdSent(p *Packet) {
	k := vc.Pos(ghR)
	vc.Assert(k > 0 && p != nil && spIsPacket(p, k-1), "the packet just read is sent, unaltered")
	vc.AssertAll("the payload is sent unaltered", len(p.Payload), func(i int) bool { return p.Payload[i] == tsPayload(k-1, i) })
	vc.Assert(!ghFinished && tsErr(k-1) == nil, "nothing is sent after the end")
	vc.Assert(tdOpen(k-1), "packets are sent between the skip-until and the take-while condition")
	vc.Freeze(p)
	vc.Freeze(p.Payload)
}

// tdChannel is the i-th registered channel.
func tdChannel(i int) conditionalChannel {
	test := func(p *Packet) bool {
		return vc.UFBool("td.test", uint64(i), uint64(p.PID), vc.Ite64(p.PayloadUnitStartIndicator, 1, 0), vc.Ite64(p.TransportPriority, 1, 0), vc.Ite64(p.TransportErrorIndicator, 1, 0), uint64(p.ContinuityCounter))
	}
	if vc.Case(i == ghJ) {
		return conditionalChannel{test, ghDemuxCh}
	}
	other := make(chan *Packet)
	vc.OnSend(other, func(p *Packet) {
		vc.Cover("packet sent to another channel")
		tdSent(p)
	})
	return conditionalChannel{test, other}
}

//verif:loop for=(*Demuxer).Go$1 n=1
func invDemux(skipping bool) {
	k := vc.Pos(ghR)
	vc.Inv(tsBegun(k) == !skipping, "packets are skipped until the condition holds")
	vc.Inv(!tsCut(k) && !ghFinished && !vc.IsClosed(ghDemuxCh), "packets are taken while the condition holds")
	vc.Inv(ghSent == tdCount(k), "every matching packet has been sent")
}

//verif:loop for=(*Demuxer).Go$1 n=2
func invDeliver(rangeindex int) {
	k := vc.Pos(ghR)
	vc.Inv(rangeindex >= -1 && rangeindex < ghDemuxN, "packets are offered to every channel")
	vc.Inv(k > 0 && tsErr(k-1) == nil && tdOpen(k-1) && !ghFinished && !vc.IsClosed(ghDemuxCh), "packets are taken while the condition holds")
	vc.Inv(ghSent == tdCount(k-1)+vc.IteInt(ghJ <= rangeindex && tdTestK(ghJ, k-1), 1, 0), "every matching packet is sent once")
	vc.Dec(uint64(ghDemuxN - rangeindex))
}

//verif:loop for=(*Demuxer).Go$1$1 n=1
func invCloseAll(rangeindex int) {
	vc.Inv(rangeindex >= -1 && rangeindex < ghDemuxN && !ghFinished, "every channel is closed")
	vc.Inv(vc.IsClosed(ghDemuxCh) == (ghJ <= rangeindex), "every channel is closed once")
	vc.Dec(uint64(ghDemuxN - rangeindex))
}

// hvDemux: a demuxer with any number of registered channels, as one of them sees it.
//
//verif:harness prop=T06
//verif:use ctPacketNext
//verif:inv invDemux invDeliver invCloseAll
func hvDemux() {
	if vc.Native() {
		return
	}
	ghDemux = true
	s := vc.NewStream("s", 0)
	ghR = s
	d := NewDemuxer(s)
	pk := new(Packet)
	vc.Any("any", pk)
	if vc.Bool("skips") {
		d.SkipUntil(tsSkip)
	} else {
		vc.Assert(d.skipUntil(pk), "without a skip-until condition nothing is skipped")
		d.skipUntil = tsSkip
	}
	if vc.Bool("takes") {
		d.TakeWhile(tsTake)
	} else {
		vc.Assert(d.takeWhile(pk), "without a take-while condition nothing is cut off")
		d.takeWhile = tsTake
	}
	ghDemuxN, ghJ = vc.IntRange("channels", 1, 1<<40), vc.IntRange("channel", 0, 1<<40)
	vc.Assume(ghJ < ghDemuxN)
	ghDemuxCh = make(chan *Packet)
	vc.OnSend(ghDemuxCh, func(p *Packet) {
		vc.Cover("packet sent")
		tdSent(p)
		ghSent++
		vc.Assert(tdTestK(ghJ, vc.Pos(ghR)-1) && ghSent == tdCount(vc.Pos(ghR)), "each matching packet is sent once, in order")
	})
	vc.SetElems(&d.registeredChannels, ghDemuxN, tdChannel)
	vc.Assume(!tsBegun(0) && !tsCut(0) && tdCount(0) == 0)
	done := d.Go()
	vc.OnSend(done, func(b bool) {
		vc.Cover("finished")
		vc.Assert(vc.IsClosed(ghDemuxCh), "every registered channel is closed before completion is signalled")
		ghFinished = true
	})
	vc.Assert(d.Err() == nil, "no error before the end")
	vc.RunSpawned()
	k := vc.Pos(s)
	vc.Assert(ghFinished && vc.IsClosed(ghDemuxCh), "completion is signalled")
	if tsErr(k-1) != nil {
		vc.Cover("stream error")
		vc.Assert(d.Err() == tsErr(k-1), "the stream's error is recorded")
		vc.Assert(ghSent == tdCount(k-1), "every matching packet has been sent")
	} else {
		vc.Cover("cut off")
		vc.Assert(tsCut(k) && d.Err() == nil, "after the take-while cut-off there is no error")
		vc.Assert(ghSent == tdCount(k), "every matching packet has been sent")
	}
}

// hvDemuxNone: a demuxer without channels reads to the end as well.
//
//verif:harness prop=T06
//verif:use ctPacketNext
//verif:inv invDemux
func hvDemuxNone() {
	if vc.Native() {
		return
	}
	ghDemux = true
	s := vc.NewStream("s", 0)
	ghR = s
	d := NewDemuxer(s)
	d.SkipUntil(tsSkip)
	d.TakeWhile(tsTake)
	ghDemuxCh = make(chan *Packet)
	vc.Assume(!tsBegun(0) && !tsCut(0) && tdCount(0) == 0)
	ghJ = -1 // nothing is sent
	done := d.Go()
	vc.OnSend(done, func(b bool) {
		vc.Cover("finished")
		ghFinished = true
	})
	vc.RunSpawned()
	k := vc.Pos(s)
	vc.Assert(ghFinished, "completion is signalled")
	vc.Assert(d.Err() == tsErr(k-1), "the stream's error is recorded")
}

// hvDemuxWhere: registering a channel.
//
//verif:harness prop=T06
func hvDemuxWhere() {
	if vc.Native() {
		return
	}
	s := vc.NewStream("s", 0)
	d := NewDemuxer(s)
	vc.Assert(len(d.registeredChannels) == 0, "a demuxer starts without channels")
	n, i := vc.IntRange("channels", 0, 1<<40), vc.IntRange("channel", 0, 1<<40)
	vc.Assume(i < n)
	ghJ = i
	ghDemuxCh = make(chan *Packet)
	vc.OnSend(ghDemuxCh, func(p *Packet) {})
	vc.SetElems(&d.registeredChannels, n, tdChannel)
	ch := d.Where(tsWhere)
	vc.Assert(len(d.registeredChannels) == n+1, "a channel is registered")
	p := new(Packet)
	vc.Any("packet", p)
	got := false
	vc.OnSend(ch, func(q *Packet) { got = q == p })
	r := d.registeredChannels[n]
	vc.Assert(r.tester(p) == tsWhere(p), "the channel is registered with its condition")
	r.channel <- p
	vc.Assert(got, "the channel returned is the one registered")
	o := d.registeredChannels[i]
	vc.Cover("registered")
	vc.Assert(o.tester(p) == tdChannel(i).tester(p) && !vc.IsClosed(ch) && vc.SameObj(o.channel, ghDemuxCh), "the channels registered before stay")
}
