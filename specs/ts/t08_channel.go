package ts

import (
	"bytes"

	"github.com/32bitkid/mpeg/internal/vc"
)

// The channel delivers packets 0, 1, ... with arbitrary unit start flags and payloads, and is then closed.
func tcMore(k uint64) bool        { return vc.UFBool("tc.more", k) }
func tcPUSI(k uint64) bool        { return vc.UFBool("tc.pusi", k) }
func tcLen(k uint64) int          { return vc.UFInt("tc.len", k) }
func tcByte(k uint64, i int) byte { return vc.UFU8("tc.byte", k, uint64(i)) }

var ghGot uint64 // packets received
var ghOutN int   // slices sent
var ghOver bool  // the input has been closed

func tcNext(payload func(k uint64, i int) byte) (*Packet, bool) {
	k := ghGot
	if ghOver || !tcMore(k) {
		ghOver = true
		return nil, false
	}
	vc.Assume(k < 1<<62 && 0 <= tcLen(k) && tcLen(k) <= 1<<40)
	ghGot = k + 1
	p := new(Packet)
	vc.Fresh("tc.pk", p)
	p.PayloadUnitStartIndicator = tcPUSI(k)
	n := tcLen(k)
	p.Payload = vc.ByteSlice("tc.payload", n)
	vc.SetSeq(p.Payload, 0, n, func(i int) byte { return payload(k, i) })
	return p, true
}

//verif:loop for=PacketChannel.PayloadOnly$1 n=1
func invPayloadOnly() {
	vc.Inv(uint64(ghOutN) == ghGot && ghGot < 1<<62+1 && !ghOver, "one payload per packet")
}

//verif:harness prop=T08
//verif:inv invPayloadOnly
func hvPayloadOnly() {
	if vc.Native() {
		return
	}
	ghGot, ghOutN, ghOver = 0, 0, false
	in := make(chan *Packet)
	vc.OnRecv(in, func() (*Packet, bool) { return tcNext(tcByte) })
	out := PacketChannel(in).PayloadOnly()
	vc.OnSend(out, func(b []byte) {
		vc.Cover("payload sent")
		k := ghGot
		vc.Assert(k > 0 && len(b) == tcLen(k-1) && uint64(ghOutN)+1 == k && !ghOver, "each payload is sent once, in order")
		vc.AssertAll("payloads are sent unaltered", len(b), func(i int) bool { return b[i] == tcByte(k-1, i) })
		ghOutN++
	})
	vc.RunSpawned()
	vc.Cover("end")
	vc.Assert(vc.IsClosed(out) && ghOver && uint64(ghOutN) == ghGot, "the output is closed when the input is, after every payload")
}

// Payload units: tcBegun(k): a unit has started before packet k. tcUnits(k): units completed before packet k;
// tcFrom(k): where the current unit starts in the concatenation tcOut of all units, tcSum(k): its length so far.
func tcBegun(k uint64) bool { return vc.UFBool("tc.begun", k) }
func tcUnits(k uint64) int  { return vc.UFInt("tc.units", k) }
func tcFrom(k uint64) int   { return vc.UFInt("tc.from", k) }
func tcSum(k uint64) int    { return vc.UFInt("tc.sum", k) }
func tcOut(i int) byte      { return vc.UFU8("tc.out", uint64(i)) }

func tcUnitByte(k uint64, i int) byte {
	return vc.IteU8(tcBegun(k+1), tcOut(tcSum(k)+i), tcByte(k, i))
}

func tcStep(k uint64) {
	vc.Assume(tcBegun(k+1) == (tcBegun(k) || tcPUSI(k)))
	vc.Assume(tcSum(k) >= 0 && tcSum(k) <= 1<<50)
	vc.Assume(tcSum(k+1) == tcSum(k)+vc.IteInt(tcBegun(k+1), tcLen(k), 0))
	vc.Assume(tcFrom(k+1) == vc.IteInt(tcPUSI(k), tcSum(k), tcFrom(k)))
	vc.Assume(tcUnits(k+1) == tcUnits(k)+vc.IteInt(tcPUSI(k) && tcBegun(k), 1, 0))
}

//verif:loop for=PacketChannel.PayloadUnit$1 n=1
func invPayloadUnit(buf *bytes.Buffer, started bool) {
	k := ghGot
	vc.Inv(k < 1<<62+1 && !ghOver && started == tcBegun(k), "units begin with the first unit start")
	vc.Inv(ghOutN == tcUnits(k), "every completed unit has been sent")
	vc.Inv(0 <= tcFrom(k) && tcFrom(k) <= tcSum(k) && tcSum(k) <= 1<<51 && (started || tcFrom(k) == tcSum(k)), "the current unit")
	vc.InvBuf(buf, tcSum(k)-tcFrom(k), func(i int) byte { return tcOut(tcFrom(k) + i) }, "the buffer holds the current unit so far")
}

//verif:harness prop=T08
//verif:inv invPayloadUnit
func hvPayloadUnit() {
	if vc.Native() {
		return
	}
	ghGot, ghOutN, ghOver = 0, 0, false
	vc.Assume(!tcBegun(0) && tcUnits(0) == 0 && tcFrom(0) == 0 && tcSum(0) == 0)
	in := make(chan *Packet)
	vc.OnRecv(in, func() (*Packet, bool) {
		p, ok := tcNext(tcUnitByte)
		if ok {
			tcStep(ghGot - 1)
		}
		return p, ok
	})
	out := PacketChannel(in).PayloadUnit()
	vc.OnSend(out, func(b []byte) {
		k := ghGot
		if ghOver {
			vc.Cover("last unit")
			vc.Assert(tcBegun(k) && ghOutN == tcUnits(k), "the last unit is sent when the input closes")
		} else {
			vc.Cover("unit sent")
			vc.Assert(k > 0 && tcPUSI(k-1) && tcBegun(k-1) && ghOutN == tcUnits(k-1), "a unit is sent when the next one starts")
			k--
		}
		vc.Assert(len(b) == tcSum(k)-tcFrom(k), "a unit is the payloads of its packets (length)")
		vc.AssertAll("a unit is the payloads of its packets", len(b), func(i int) bool { return b[i] == tcOut(tcFrom(k)+i) })
		ghOutN++
	})
	vc.RunSpawned()
	vc.Cover("end")
	vc.Assert(vc.IsClosed(out) && ghOver, "the output is closed when the input is")
	vc.Assert(ghOutN == tcUnits(ghGot)+vc.IteInt(tcBegun(ghGot), 1, 0), "every unit is sent")
}
