package ts

import (
	"io"

	"github.com/32bitkid/mpeg/internal/vc"
)

// Native generators: well-formed packets, parsed here independently of the library.

type nPacket struct {
	pid     uint32
	pusi    bool
	prio    bool
	payload []byte
	raw     []byte
}

type nStream struct {
	pk  []nPacket
	all []byte
	err error
}

func nGen(name string) *nStream {
	s := &nStream{}
	n := vc.Rnd(name+".n", 9)
	if vc.Rnd(name+".long", 5) == 0 {
		n = vc.Rnd(name+".n", 60)
	}
	for k := uint64(0); k < n; k++ {
		b := make([]byte, 188)
		for i := range b {
			b[i] = byte(vc.Rnd(name, 256, k, uint64(i)))
		}
		b[0] = 0x47
		p := nPacket{pid: uint32(vc.Rnd(name+".pid", 3, k)), pusi: vc.Rnd(name+".pusi", 3, k) == 0, prio: vc.Rnd(name+".prio", 4, k) == 0}
		b[1], b[2] = 0, byte(p.pid)
		if p.pusi {
			b[1] |= 0x40
		}
		if p.prio {
			b[1] |= 0x20
		}
		at := 4
		switch vc.Rnd(name+".kind", 6, k) {
		case 0: // adaptation field and payload
			b[3] = b[3]&0x0f | 0x30
			b[4] = byte(vc.Rnd(name+".L", 184, k))
			b[5] = 0
			at = 5 + int(b[4])
		case 1: // no payload
			b[3] = b[3]&0x0f | 0x20
			b[4], b[5] = 183, 0
			at = 188
		default:
			b[3] = b[3]&0x0f | 0x10
		}
		p.payload = append([]byte(nil), b[at:]...)
		p.raw = b
		s.pk = append(s.pk, p)
		s.all = append(s.all, b...)
	}
	if vc.Rnd(name+".tail", 3) == 0 {
		t := vc.Rnd(name+".taillen", 187)
		tail := make([]byte, t+1)
		tail[0], tail[len(tail)-1] = 0x47, 0
		tail[0] = 0x47
		s.all = append(s.all, tail...)
	}
	s.err = io.EOF
	if vc.Rnd(name+".err", 3) == 0 {
		s.err = vc.ErrNew("broken source")
	}
	return s
}

// nSource delivers the stream in pieces of varying size.
type nSource struct {
	s  *nStream
	at int
	k  uint64
	nm string
}

func (r *nSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at >= len(r.s.all) {
		return 0, r.s.err
	}
	r.k++
	n := int(vc.Rnd(r.nm+".piece", 400, r.k)) + 1
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.s.all[r.at:])
	r.at += n
	return n, nil
}

func nTester(name string) (PacketTester, func(p *nPacket) bool) {
	v := uint32(vc.Rnd(name+".v", 3))
	switch vc.Rnd(name+".tester", 6) {
	case 0:
		return func(p *Packet) bool { return true }, func(p *nPacket) bool { return true }
	case 1:
		return func(p *Packet) bool { return p.PayloadUnitStartIndicator }, func(p *nPacket) bool { return p.pusi }
	case 2:
		return func(p *Packet) bool { return p.TransportPriority }, func(p *nPacket) bool { return p.prio }
	case 3:
		return func(p *Packet) bool { return p.PID != v }, func(p *nPacket) bool { return p.pid != v }
	}
	return func(p *Packet) bool { return p.PID == v }, func(p *nPacket) bool { return p.pid == v }
}

func nTake(name string) (PacketTester, func(p *nPacket) bool) {
	// usually true
	a, b := uint32(vc.Rnd(name+".a", 3)), vc.Rnd(name+".b", 2) == 0
	return func(p *Packet) bool { return p.PID != a || p.TransportPriority == b || !p.PayloadUnitStartIndicator }, func(p *nPacket) bool { return p.pid != a || p.prio == b || !p.pusi }
}

func nSize(name string, k uint64) int {
	switch vc.Rnd(name+".kind", 3) {
	case 0:
		return int(vc.Rnd(name+".size", 4, k))
	case 1:
		return int(vc.Rnd(name+".size", 1000, k))
	}
	return int(vc.Rnd(name+".size", 200, k))
}

//verif:harness prop=T04 native=only
func hnPayloadReader() {
	if !vc.Native() {
		return
	}
	s := nGen("st")
	where, nwhere := nTester("where")
	r := NewPayloadReader(&nSource{s: s, nm: "src"}, where)
	nskip := func(p *nPacket) bool { return true }
	if vc.Rnd("skips", 2) == 0 {
		var skip PacketTester
		skip, nskip = nTester("skip")
		r.SkipUntil(skip)
	}
	ntake := func(p *nPacket) bool { return true }
	if vc.Rnd("takes", 2) == 0 {
		var take PacketTester
		take, ntake = nTake("take")
		r.TakeWhile(take)
	}
	var want []byte
	begun, cut := false, false
	for i := range s.pk {
		p := &s.pk[i]
		begun = begun || nskip(p)
		if begun && !ntake(p) {
			cut = true
			break
		}
		if begun && nwhere(p) {
			want = append(want, p.payload...)
		}
	}
	var got []byte
	calls := uint64(0)
	fails := 0
	for ; calls < 40000; calls++ {
		b := make([]byte, nSize("read", calls))
		n, err := r.Read(b)
		if n < 0 || n > len(b) {
			vc.Assert(false, "the count is within the buffer")
			return
		}
		got = append(got, b[:n]...)
		if err == nil {
			vc.Assert(n > 0 || len(b) == 0, "a successful read makes progress")
			continue
		}
		if cut {
			vc.Assert(err == io.EOF, "end of stream is reported after the cut-off")
		} else if s.err != io.EOF || len(s.all)%188 == 0 {
			vc.Assert(err == s.err, "the stream's error is reported")
		}
		vc.Assert(string(got) == string(want), "an error is reported after every byte parsed before it, in order")
		fails++
		if fails == 3 {
			break
		}
	}
	vc.Assert(fails == 3, "the end of the stream is reported, and again")
}

//verif:harness prop=T05 native=only
func hnUnitReader() {
	if !vc.Native() {
		return
	}
	s := nGen("st")
	where, nwhere := nTester("where")
	r := NewPayloadUnitReader(&nSource{s: s, nm: "src"}, where)
	var want [][]byte
	for i := range s.pk {
		p := &s.pk[i]
		if nwhere(p) && p.pusi {
			want = append(want, nil)
		}
		if nwhere(p) && len(want) > 0 {
			want[len(want)-1] = append(want[len(want)-1], p.payload...)
		}
	}
	unit := 0
	var got []byte
	fails := 0
	for calls := uint64(0); calls < 40000 && fails < 3; calls++ {
		b := make([]byte, nSize("read", calls))
		n, err := r.Read(b)
		if n < 0 || n > len(b) {
			vc.Assert(false, "the count is within the buffer")
			return
		}
		got = append(got, b[:n]...)
		switch {
		case err == nil:
			vc.Assert(n > 0 || len(b) == 0, "a successful read makes progress")
		case err == EOP:
			if unit >= len(want) || string(got) != string(want[unit]) {
				vc.Assert(false, "end of packet is reported exactly at the end of each unit, whose bytes are delivered in order")
				return
			}
			unit, got = unit+1, nil
		default:
			vc.Assert(unit == len(want) && len(got) == 0, "the stream's error is reported after the last unit")
			if s.err != io.EOF || len(s.all)%188 == 0 {
				vc.Assert(err == s.err, "the stream's error is reported")
			}
			fails++
		}
	}
	vc.Assert(fails == 3, "the end of the stream is reported, and again")
}

//verif:harness prop=T06 native=only
//verif:search 3000
func hnDemux() {
	if !vc.Native() {
		return
	}
	s := nGen("st")
	d := NewDemuxer(&nSource{s: s, nm: "src"})
	nskip := func(p *nPacket) bool { return true }
	if vc.Rnd("skips", 2) == 0 {
		var skip PacketTester
		skip, nskip = nTester("skip")
		d.SkipUntil(skip)
	}
	ntake := func(p *nPacket) bool { return true }
	if vc.Rnd("takes", 2) == 0 {
		var take PacketTester
		take, ntake = nTake("take")
		d.TakeWhile(take)
	}
	C := int(vc.Rnd("channels", 4))
	var chans []PacketChannel
	var tests []func(p *nPacket) bool
	for c := 0; c < C; c++ {
		t, nt := nTester("chan" + string(rune('0'+c)))
		chans = append(chans, d.Where(t))
		tests = append(tests, nt)
	}
	want := make([][]*nPacket, C)
	begun, cut := false, false
	for i := range s.pk {
		p := &s.pk[i]
		begun = begun || nskip(p)
		if begun && !ntake(p) {
			cut = true
			break
		}
		for c := range chans {
			if begun && tests[c](p) {
				want[c] = append(want[c], p)
			}
		}
	}
	got := make([][]*Packet, C)
	ends := make(chan int)
	for c := range chans {
		go func(c int) {
			for p := range chans[c] {
				got[c] = append(got[c], p)
			}
			ends <- c
		}(c)
	}
	done := d.Go()
	open := C
	for open > 0 {
		select {
		case <-ends:
			open--
		case <-done:
			// every channel must have been closed by now: its receiver ends
			for open > 0 {
				<-ends
				open--
			}
			done = nil
		}
	}
	if done != nil {
		<-done
	}
	for c := range chans {
		if len(got[c]) != len(want[c]) {
			vc.Assert(false, "every matching packet is sent, and nothing else")
			continue
		}
		for i, p := range got[c] {
			w := want[c][i]
			vc.Assert(p.PID == w.pid && p.PayloadUnitStartIndicator == w.pusi && p.TransportPriority == w.prio && string(p.Payload) == string(w.payload), "packets are sent in order and not changed afterwards")
		}
	}
	if cut {
		vc.Assert(d.Err() == nil, "after the take-while cut-off there is no error")
	} else if s.err != io.EOF || len(s.all)%188 == 0 {
		vc.Assert(d.Err() == s.err, "the stream's error is recorded")
	} else {
		vc.Assert(d.Err() != nil, "the stream's error is recorded")
	}
}

//verif:harness prop=T08 native=only
//verif:search 3000
func hnChannel() {
	if !vc.Native() {
		return
	}
	s := nGen("st")
	in := make(chan *Packet)
	units := vc.Rnd("units", 2) == 0
	go func() {
		for i := range s.pk {
			in <- &Packet{PID: s.pk[i].pid, PayloadUnitStartIndicator: s.pk[i].pusi, Payload: s.pk[i].payload}
		}
		close(in)
	}()
	var want, got [][]byte
	for i := range s.pk {
		p := &s.pk[i]
		if !units || p.pusi {
			want = append(want, nil)
		}
		if len(want) > 0 {
			want[len(want)-1] = append(want[len(want)-1], p.payload...)
		}
	}
	var out <-chan []byte
	if units {
		out = PacketChannel(in).PayloadUnit()
	} else {
		out = PacketChannel(in).PayloadOnly()
	}
	for b := range out {
		got = append(got, b)
	}
	if len(got) != len(want) {
		vc.Assert(false, "every payload or unit is delivered, and nothing else")
		return
	}
	for i := range got {
		vc.Assert(string(got[i]) == string(want[i]), "payloads and units are delivered in order, unaltered")
	}
}
