package ps

import (
	"io"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/pes"
)

// Native generators: program streams built here field by field, independently of the library.

type nBits struct {
	b []byte
	n uint
}

func (w *nBits) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << (7 - w.n%8)
		w.n++
	}
}

type nPkt struct {
	id           uint32
	payload, raw []byte
}

type nEntry struct{ id, scale, size uint64 }

type nPack struct {
	scr      uint64 // 33 bits
	ext, mux uint64
	sys      bool
	hl, rate uint64
	audio    uint64
	flags    [4]uint64 // fixed, CSPS, audio lock, video lock
	video    uint64
	prr      uint64
	entries  []nEntry
	head     []byte
	marks    []int // bit positions of marker bits in head
	pkts     []nPkt
}

func nPacket(k ...uint64) nPkt {
	var p nPkt
	rnd := func(s string, n uint64) uint64 { return vc.Rnd("pk"+s, n, k...) }
	p.id = []uint32{0xe0, 0xc0, 0xbd, 0xbc, 0xff, 0xe1, 0xbf, 0xbe}[rnd(".id", 8)]
	n := int(rnd(".len", 50))
	if rnd(".empty", 6) == 0 {
		n = 0
	} else if rnd(".long", 8) == 0 {
		n = int(rnd(".len", 2000))
	}
	for i := 0; i < n; i++ {
		p.payload = append(p.payload, byte(vc.Rnd("pk.byte", 256, append([]uint64{uint64(i)}, k...)...)))
	}
	w := &nBits{}
	w.put(1, 24)
	w.put(uint64(p.id), 8)
	switch p.id {
	case 0xbc, 0xff, 0xbf:
		w.put(uint64(n), 16)
	case 0xbe:
		w.put(uint64(n), 16)
		p.raw = append(w.b, p.payload...)
		p.payload = nil
		return p
	default:
		stuff := int(rnd(".stuff", 4))
		w.put(uint64(3+stuff+n), 16)
		w.put(2, 2)
		w.put(0, 14)
		w.put(uint64(stuff), 8)
		for i := 0; i < stuff; i++ {
			w.put(255, 8)
		}
	}
	p.raw = append(w.b, p.payload...)
	return p
}

func nNewPack(k uint64, maxPkts uint64) nPack {
	var p nPack
	rnd := func(s string, n uint64) uint64 { return vc.Rnd("pack"+s, n, k) }
	w := &nBits{}
	mark := func() {
		p.marks = append(p.marks, int(w.n))
		w.put(1, 1)
	}
	p.scr, p.ext, p.mux = rnd(".scr", 1<<33), rnd(".ext", 512), rnd(".mux", 1<<22)
	w.put(0x1ba, 32)
	p.marks = append(p.marks, 32, 33)
	w.put(1, 2)
	w.put(p.scr>>30, 3)
	mark()
	w.put(p.scr>>15, 15)
	mark()
	w.put(p.scr, 15)
	mark()
	w.put(p.ext, 9)
	mark()
	w.put(p.mux, 22)
	mark()
	mark()
	w.put(rnd(".reserved", 32), 5)
	stuff := rnd(".stuff", 8)
	if rnd(".nostuff", 3) == 0 {
		stuff = 0
	}
	w.put(stuff, 3)
	for ; stuff > 0; stuff-- {
		w.put(0xff, 8)
	}
	p.sys = rnd(".sys", 3) == 0
	n := rnd(".entries", 6)
	if rnd(".many", 10) == 0 {
		n = rnd(".entries", 60)
	}
	if p.sys {
		w.put(0x1bb, 32)
		p.hl, p.rate, p.audio, p.video, p.prr = 6+3*n, rnd(".rate", 1<<22), rnd(".audio", 64), rnd(".video", 32), rnd(".prr", 2)
		for i := range p.flags {
			p.flags[i] = vc.Rnd("pack.flag", 2, k, uint64(i))
		}
		w.put(p.hl, 16)
		mark()
		w.put(p.rate, 22)
		mark()
		w.put(p.audio, 6)
		w.put(p.flags[0], 1)
		w.put(p.flags[1], 1)
		w.put(p.flags[2], 1)
		w.put(p.flags[3], 1)
		mark()
		w.put(p.video, 5)
		w.put(p.prr, 1)
		w.put(127, 7)
		for i := uint64(0); i < n; i++ {
			e := nEntry{128 + vc.Rnd("e.id", 128, k, i), vc.Rnd("e.scale", 2, k, i), vc.Rnd("e.size", 1<<13, k, i)}
			p.entries = append(p.entries, e)
			w.put(e.id, 8)
			mark()
			mark()
			w.put(e.scale, 1)
			w.put(e.size, 13)
		}
	}
	p.head = w.b
	n = vc.Rnd("pack.n", maxPkts+1, k)
	if rnd(".none", 4) == 0 {
		n = 0
	}
	for i := uint64(0); i < n; i++ {
		p.pkts = append(p.pkts, nPacket(k, i))
	}
	return p
}

func nPackIs(h *PackHeader, w nPack) {
	if h == nil {
		vc.Assert(false, "the header is returned")
		return
	}
	vc.Assert(h.SystemClockReferenceBase == uint32(w.scr) && uint64(h.SystemClockReferenceExtension) == w.ext && uint64(h.ProgramMuxRate) == w.mux, "clock reference and mux rate")
	vc.Assert((h.SystemHeader != nil) == w.sys, "a system header exactly when one follows")
	if h.SystemHeader == nil || !w.sys {
		return
	}
	s := h.SystemHeader
	vc.Assert(uint64(s.HeaderLength) == w.hl && uint64(s.RateBound) == w.rate && uint64(s.AudioBound) == w.audio && uint64(s.VideoBound) == w.video, "header length and bounds")
	vc.Assert(s.Fixed == (w.flags[0] == 1) && s.CSPS == (w.flags[1] == 1) && s.SystemAudioLock == (w.flags[2] == 1) && s.SystemVideoLock == (w.flags[3] == 1) && s.PacketRateRestriction == (w.prr == 1), "system header flags")
	vc.Assert(len(s.Streams) == len(w.entries), "every stream entry is reported")
	for i, e := range w.entries {
		if i >= len(s.Streams) {
			return
		}
		g := s.Streams[i]
		vc.Assert(g != nil && uint64(g.StreamID) == e.id && g.P_STD_BufferBoundScale == (e.scale == 1) && uint64(g.P_STD_BufferSizeBound) == e.size, "stream entries in order")
	}
}

type nReader struct {
	b   []byte
	err error
	at  int
	k   uint64
}

func (r *nReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at >= len(r.b) {
		return 0, r.err
	}
	r.k++
	n := int(vc.Rnd("src.piece", 400, r.k)) + 1
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b[r.at:])
	r.at += n
	return n, nil
}

//verif:harness prop=S01 native=only
//verif:search 6000
func hnPackHeader() {
	if !vc.Native() {
		return
	}
	w := nNewPack(0, 0)
	b := append([]byte{}, w.head...)
	tail := []byte{0, 0, 1, 0xe0, 0, 0}
	var end error = io.EOF
	if vc.Rnd("end", 3) == 0 {
		end = vc.ErrNew("broken source")
	}
	fails := true
	switch vc.Rnd("break", 5) {
	case 0: // a missing marker bit
		at := w.marks[vc.Rnd("mark", uint64(len(w.marks)))]
		b[at/8] ^= 0x80 >> uint(at%8)
		b = append(b, tail...)
	case 1: // truncation
		b = b[:vc.Rnd("cut", uint64(len(b)))]
	case 2: // a different start code
		b[vc.Rnd("code", 4)] ^= 1 << vc.Rnd("codebit", 8)
		b = append(b, tail...)
	default:
		fails = false
		b = append(b, tail...)
	}
	br := bitreader.NewReader(&nReader{b: b, err: end})
	h, err := NewPackHeader(br)
	if fails {
		vc.Assert(err != nil, "a missing start code, marker or data is an error")
		return
	}
	vc.Assert(err == nil, "a well-formed header is accepted")
	if err != nil {
		return
	}
	nPackIs(h, w)
	rest := make([]byte, 6)
	_, err = io.ReadFull(br, rest)
	vc.Assert(err == nil && string(rest) == string(tail), "the header and its stuffing are consumed, nothing else")
}

// nProgram builds a program stream: its packs, its bytes, whether it ends with a program end code, and the error of
// the source behind its last byte.
func nProgram() (packs []nPack, b []byte, ended bool, end error) {
	n := vc.Rnd("packs", 5)
	if vc.Rnd("some", 4) != 0 {
		n++
	}
	ended = vc.Rnd("noend", 3) != 0
	for k := uint64(0); k < n; k++ {
		p := nNewPack(k, 4)
		if k == n-1 && !ended && len(p.pkts) == 0 {
			// a pack header is followed by a start code
			p.pkts = append(p.pkts, nPacket(k, 0))
		}
		packs = append(packs, p)
		b = append(b, p.head...)
		for _, q := range p.pkts {
			b = append(b, q.raw...)
		}
	}
	end = io.EOF
	if vc.Rnd("broken", 3) == 0 {
		end = vc.ErrNew("broken source")
	}
	if ended {
		b = append(b, 0, 0, 1, 0xb9)
		for i := vc.Rnd("after", 12); i > 0; i-- {
			b = append(b, byte(vc.Rnd("afterbyte", 256, i)))
		}
	}
	return
}

//verif:harness prop=S02 native=only
//verif:search 4000
func hnPackReader() {
	if !vc.Native() {
		return
	}
	packs, b, ended, end := nProgram()
	var want []byte
	for _, p := range packs {
		for _, q := range p.pkts {
			want = append(want, q.payload...)
		}
	}
	exact := !ended
	cut := false
	if !ended {
		switch vc.Rnd("bad", 4) {
		case 0: // something else than a packet
			b = append(b, 9, 9, 9, 9, 9, 9, 9, 9)
			exact = false
		case 1: // a pack header without its marker
			b = append(b, 0, 0, 1, 0xba, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			exact = false
		case 2: // the last packet is cut short
			if len(packs) > 0 && len(packs[len(packs)-1].pkts) > 0 {
				pk := packs[len(packs)-1].pkts
				l := pk[len(pk)-1]
				b = b[:len(b)-1-int(vc.Rnd("cutat", uint64(len(l.raw)-1)))]
				want = want[:len(want)-len(l.payload)]
				exact, cut = false, true
			}
		}
	}
	_ = cut
	r := NewPackReader(&nReader{b: b, err: end})
	var got []byte
	for calls := uint64(0); calls < 40000; calls++ {
		size := int(vc.Rnd("size", 80, calls))
		if vc.Rnd("big", 3) == 0 {
			size *= 40
		} else if vc.Rnd("small", 2) == 0 {
			size /= 20
		}
		d := make([]byte, size)
		m, err := r.Read(d)
		if m < 0 || m > size {
			vc.Assert(false, "the count is within the buffer")
			return
		}
		got = append(got, d[:m]...)
		if err == nil {
			vc.Assert(m > 0 || size == 0, "a successful read makes progress")
			continue
		}
		vc.Assert(string(got) == string(want), "the end or an error is reported with the bytes delivered, after every byte before it")
		if ended {
			vc.Assert(err == io.EOF, "end of file at the program end code")
		} else if exact {
			vc.Assert(err == end || end == io.EOF && err == io.ErrUnexpectedEOF, "the stream's error is reported")
		}
		return
	}
	vc.Assert(false, "the end of the stream is reported")
}

//verif:harness prop=S03 native=only
//verif:search 3000
func hnDecoder() {
	if !vc.Native() {
		return
	}
	packs, b, ended, end := nProgram()
	bad, exact := 0, true
	var slow [8]bool
	for i := range slow {
		slow[i] = vc.Rnd("slow", 4, uint64(i)) == 0
	}
	if !ended {
		switch vc.Rnd("bad", 4) {
		case 0:
			b = append(b, 9, 9, 9, 9, 9, 9, 9, 9)
			bad = 1
		case 1:
			b = append(b, 0, 0, 1, 0xba, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			exact = false
		}
	}
	d := NewDecoder(bitreader.NewReader(&nReader{b: b, err: end}))
	type gotPack struct {
		p    *Pack
		pkts []*pes.Packet
	}
	var got []gotPack
	stop := time.After(10 * time.Second)
	finished := make(chan bool, 1)
	go func() {
		defer func() { finished <- true }()
		for p := range d.Packs() {
			g := gotPack{p: p}
			if slow[len(got)%8] {
				time.Sleep(50 * time.Microsecond)
			}
			for q := range p.Packets() {
				g.pkts = append(g.pkts, q)
			}
			got = append(got, g)
		}
	}()
	done := d.Go()
	var result bool
	if vc.Rnd("first", 2) == 0 {
		// the receiver waits for the packs before the result
		select {
		case <-finished:
			finished <- true
		case <-stop:
			vc.Assert(false, "the pack channel is closed when the decoder stops")
			return
		}
	}
	select {
	case result = <-done:
	case <-stop:
		vc.Assert(false, "the result is sent")
		return
	}
	select {
	case <-finished:
	case <-stop:
		vc.Assert(false, "the pack channel is closed")
		return
	}
	vc.Assert(len(got) == len(packs), "every pack is delivered, and nothing else")
	for i, g := range got {
		if i >= len(packs) {
			return
		}
		nPackIs(g.p.PackHeader, packs[i])
		vc.Assert(len(g.pkts) == len(packs[i].pkts), "every packet of a pack is delivered on its channel, and nothing else")
		for j, q := range g.pkts {
			if j >= len(packs[i].pkts) {
				return
			}
			w := packs[i].pkts[j]
			vc.Assert(q.StreamID == w.id && string(q.Payload) == string(w.payload), "packets are delivered in order, unaltered")
		}
	}
	err := d.Err()
	vc.Assert(result == (err == nil), "success is reported exactly without an error")
	switch {
	case len(packs) == 0:
		vc.Assert(err != nil, "a stream without a pack is an error")
	case ended:
		vc.Assert(err == nil, "a program end code is success")
	case bad == 1:
		vc.Assert(err == ErrProgramEndCodeNotFound, "a missing program end code is an error")
	case exact:
		vc.Assert(err == end || end == io.EOF && err == io.ErrUnexpectedEOF, "the stream's error is recorded")
	default:
		vc.Assert(err != nil, "an error of a pack header is recorded")
	}
}

// hnProgramBits: what a bit reader delivers over the program stream reader.
//
//verif:harness prop=R01 native=only
//verif:search 3000
func hnProgramBits() {
	if !vc.Native() {
		return
	}
	packs, b, _, end := nProgram()
	r := NewPackReader(&nReader{b: b, err: end})
	plain := vc.Rnd("plain", 3) == 0
	var br bitreader.BitReader
	if !plain {
		br = bitreader.NewReader(r)
	}
	total := 0
	for _, p := range packs {
		for _, q := range p.pkts {
			total += len(q.payload)
			for _, c := range q.payload {
				if plain {
					break
				}
				v, err := br.Read8(8)
				if err != nil || v != c {
					vc.Assert(false, "a bit reader over the reader delivers every byte")
					return
				}
			}
		}
	}
	if !plain {
		_, err := br.Read8(8)
		vc.Assert(err != nil, "the end is reported after the last byte")
		return
	}
	for calls, got := uint64(0), 0; calls < 40000; calls++ {
		d := make([]byte, vc.Rnd("size", 300, calls)+1)
		m, err := r.Read(d)
		vc.Assert(m == 0 || err == nil, "no data is delivered along with an error")
		vc.Assert(m > 0 || err != nil, "a successful read makes progress")
		if m == 0 && err == nil {
			return
		}
		got += m
		if err != nil {
			vc.Assert(got == total, "an error is reported after every byte before it")
			return
		}
	}
}
