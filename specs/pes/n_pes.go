package pes

import (
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/ts"
)

// Native generators: packets built here field by field, independently of the library.

type nPES struct {
	id, pl       uint32
	hasHeader    bool
	scrambling   uint32
	flags        [4]bool // priority, alignment, copyright, original
	pd           uint32
	pts, dts     uint64
	ext          bool
	priv         []byte
	buf          bool
	scale, size  uint32
	hdl          uint32
	payload, raw []byte
	bad          bool // malformed: must be an error
}

type nBits struct {
	b []byte
	n uint
}

func (w *nBits) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << (7 - w.n%8)
		w.n++
	}
}

func nStamp(w *nBits, marker uint64, v uint64) {
	w.put(marker, 4)
	w.put(v>>30, 3)
	w.put(1, 1)
	w.put(v>>15, 15)
	w.put(1, 1)
	w.put(v, 15)
	w.put(1, 1)
}

func nBool(name string, one uint64, k ...uint64) bool { return vc.Rnd(name, one, k...) == 0 }

// nPESPacket builds packet k; well-formed unless mayBeBad.
func nPESPacket(name string, k uint64, mayBeBad bool, mayBeUnbounded bool) *nPES {
	p := &nPES{}
	rnd := func(s string, n uint64) uint64 { return vc.Rnd(name+s, n, k) }
	headerless := []uint32{0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff}
	others := []uint32{0xe0, 0xe0, 0xc0, 0xbd, 0xef, 0xf3, 0xf9, 0xdf, 0xfa, 0xc7}
	if rnd(".kind", 4) == 0 {
		p.id = headerless[rnd(".id", 8)]
	} else {
		p.id = others[rnd(".id", 10)]
		p.hasHeader = true
	}
	body := int(rnd(".body", 60))
	if rnd(".long", 8) == 0 {
		body = int(rnd(".body", 3000))
	}
	if rnd(".empty", 6) == 0 {
		body = 0
	}
	for i := 0; i < body; i++ {
		p.payload = append(p.payload, byte(vc.Rnd(name+".byte", 256, k, uint64(i))))
	}
	w := &nBits{}
	w.put(1, 24)
	w.put(uint64(p.id), 8)
	if !p.hasHeader {
		p.pl = uint32(body)
		w.put(uint64(body), 16)
		p.raw = append(w.b, p.payload...)
		if p.id == 0xbe {
			p.payload = nil
		}
	} else {
		h := &nBits{}
		p.scrambling = uint32(rnd(".scr", 4))
		for i := range p.flags {
			p.flags[i] = vc.Rnd(name+".flag", 2, k, uint64(i)) == 0
		}
		p.pd = uint32(rnd(".pd", 4))
		p.ext = rnd(".ext", 3) == 0
		o := &nBits{}
		if p.pd >= 2 {
			p.pts = rnd(".pts", 1<<33)
			nStamp(o, uint64(p.pd), p.pts)
		}
		if p.pd == 3 {
			p.dts = rnd(".dts", 1<<33)
			nStamp(o, 1, p.dts)
		}
		if p.ext {
			priv := rnd(".priv", 2) == 0
			p.buf = rnd(".buf", 2) == 0
			o.put(vc.Ite64(priv, 1, 0), 1)
			o.put(0, 2)
			o.put(vc.Ite64(p.buf, 1, 0), 1)
			o.put(rnd(".reserved", 8), 3)
			o.put(0, 1)
			if priv {
				for i := 0; i < 16; i++ {
					b := byte(vc.Rnd(name+".privbyte", 256, k, uint64(i)))
					p.priv = append(p.priv, b)
					o.put(uint64(b), 8)
				}
			}
			if p.buf {
				p.scale, p.size = uint32(rnd(".scale", 2)), uint32(rnd(".size", 1<<13))
				o.put(1, 2)
				o.put(uint64(p.scale), 1)
				o.put(uint64(p.size), 13)
			}
		}
		stuff := int(rnd(".stuff", 5))
		p.hdl = uint32(len(o.b) + stuff)
		for i := 0; i < stuff; i++ {
			o.put(255, 8)
		}
		p.pl = 3 + p.hdl + uint32(body)
		if mayBeBad && rnd(".breaks", 4) == 0 {
			p.bad = true
			switch rnd(".break", 5) {
			case 0:
				if p.pd < 2 {
					p.bad = false
				} else {
					// a marker bit of the time stamps
					at := []int{0, 2, 4}[rnd(".marker", 3)]
					if p.pd == 3 && rnd(".which", 2) == 0 {
						at += 5
					}
					o.b[at] &^= 1
				}
			case 1:
				if stuff == 0 {
					p.bad = false
				} else {
					o.b[len(o.b)-1-int(rnd(".stuffat", uint64(stuff)))] = byte(rnd(".stuffval", 255))
				}
			case 2: // the packet length is shorter than the header
				p.pl = uint32(rnd(".short", uint64(3+p.hdl-1)) + 1)
			case 3: // the header length is shorter than the header
				if len(o.b)-stuff == 0 {
					p.bad = false
				} else {
					p.hdl = uint32(rnd(".shorth", uint64(len(o.b)-stuff)))
				}
			case 4:
				if p.ext && p.buf {
					o.b[len(o.b)-stuff-2] ^= 0x80
				} else {
					p.bad = false
				}
			}
		}
		if !p.bad && mayBeUnbounded && rnd(".unbounded", 5) == 0 {
			p.pl = 0
		}
		h.put(2, 2)
		h.put(uint64(p.scrambling), 2)
		for _, f := range p.flags {
			h.put(vc.Ite64(f, 1, 0), 1)
		}
		h.put(uint64(p.pd), 2)
		h.put(0, 5)
		h.put(vc.Ite64(p.ext, 1, 0), 1)
		h.put(uint64(p.hdl), 8)
		w.put(uint64(p.pl), 16)
		p.raw = append(append(append(w.b, h.b...), o.b...), p.payload...)
	}
	return p
}

type nReader struct {
	b   []byte
	err error
	at  int
	k   uint64
	nm  string
}

func (r *nReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at >= len(r.b) {
		return 0, r.err
	}
	r.k++
	n := int(vc.Rnd(r.nm+".piece", 400, r.k)) + 1
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.b[r.at:])
	r.at += n
	return n, nil
}

func nPESIs(p *Packet, w *nPES) {
	vc.Assert(p.StreamID == w.id && p.PacketLength == w.pl, "stream id and packet length")
	vc.Assert((p.Header != nil) == w.hasHeader, "the header is reported for the streams that carry it, and none of a previous packet")
	vc.Assert(string(p.Payload) == string(w.payload), "payload bytes")
	if p.Header == nil || !w.hasHeader {
		return
	}
	h := p.Header
	vc.Assert(h.ScramblingControl == w.scrambling && h.PtsDtsFlags == w.pd && h.ExtensionFlag == w.ext && h.HeaderDataLength == w.hdl, "header fields")
	vc.Assert(h.Priority == w.flags[0] && h.DataAlignmentIndicator == w.flags[1] && h.Copyright == w.flags[2] && h.OrignalOrCopy == w.flags[3], "header flags")
	vc.Assert(h.PresentationTimeStamp == uint32(w.pts) && h.DecodingTimeStamp == uint32(w.dts), "time stamps")
	vc.Assert((h.Extension != nil) == w.ext, "extension present exactly when signalled")
	if h.Extension == nil || !w.ext {
		return
	}
	e := h.Extension
	vc.Assert(e.PrivateDataFlag == (w.priv != nil) && string(e.PrivateData) == string(w.priv), "private data")
	vc.Assert(e.P_STD_BufferFlag == w.buf && (e.P_STD_Buffer != nil) == w.buf, "P-STD buffer present exactly when signalled")
	if e.P_STD_Buffer != nil && w.buf {
		vc.Assert(e.P_STD_Buffer.Scale == w.scale && e.P_STD_Buffer.Size == w.size, "P-STD buffer")
	}
}

// hnPES: a few packets read with one object, the last possibly malformed, truncated or unbounded.
//
//verif:harness prop=P01 native=only
//verif:search 6000
func hnPES() {
	if !vc.Native() {
		return
	}
	n := int(vc.Rnd("n", 4)) + 1
	var all []byte
	var pk []*nPES
	for k := 0; k < n; k++ {
		p := nPESPacket("p", uint64(k), k == n-1, k == n-1)
		pk = append(pk, p)
		all = append(all, p.raw...)
	}
	last := pk[n-1]
	trailer := 0
	end := io.EOF
	fails := last.bad
	switch {
	case last.hasHeader && last.pl == 0:
		switch vc.Rnd("end", 3) {
		case 0:
			end = ts.EOP
		case 1:
			end = vc.ErrNew("broken source")
			fails = true
		}
	case vc.Rnd("cut", 4) == 0:
		all = all[:len(all)-1-int(vc.Rnd("cutat", uint64(len(last.raw))))]
		fails = true
	case vc.Rnd("prefix", 8) == 0:
		all[len(all)-len(last.raw)+int(vc.Rnd("prefixat", 3))] ^= 1 << vc.Rnd("prefixbit", 8)
		fails = true
	}
	if !fails && !(last.hasHeader && last.pl == 0) {
		trailer = int(vc.Rnd("trailer", 4))
		for i := 0; i < trailer; i++ {
			all = append(all, 0xa5)
		}
	}
	br := bitreader.NewReader(&nReader{b: all, err: end, nm: "src"})
	p := new(Packet)
	for k, w := range pk {
		var err error
		if vc.Rnd("new", 4, uint64(k)) == 0 {
			p, err = NewPacket(br)
		} else {
			err = p.Next(br)
		}
		if k == n-1 && fails {
			vc.Assert(err != nil, "a truncated or malformed packet is an error")
			return
		}
		vc.Assert(err == nil, "a well-formed packet is accepted")
		if err != nil {
			return
		}
		nPESIs(p, w)
	}
	for i := 0; i < trailer; i++ {
		b, err := br.Read8(8)
		vc.Assert(err == nil && b == 0xa5, "the packet is consumed up to its end")
	}
	_, err := br.Read8(8)
	vc.Assert(err != nil, "the packet is consumed up to its end")
}

//verif:harness prop=P02 native=only
//verif:search 3000
func hnPESReader() {
	if !vc.Native() {
		return
	}
	n := int(vc.Rnd("n", 8))
	var all, want []byte
	for k := 0; k < n; k++ {
		p := nPESPacket("p", uint64(k), false, false)
		all = append(all, p.raw...)
		want = append(want, p.payload...)
	}
	var end error = io.EOF
	exact := true
	switch vc.Rnd("end", 5) {
	case 0:
		end = vc.ErrNew("broken source")
	case 1: // not a packet
		all = append(all, 0, 0, 2, 3, 4, 5, 6, 7)
		exact = false
	case 2:
		all = append(all, 0, 0, 1, 0xe0, 0, 20, 0x80)
		exact = false
	}
	r := NewPayloadReader(&nReader{b: all, err: end, nm: "src"})
	var got []byte
	for calls := uint64(0); calls < 40000; calls++ {
		size := int(vc.Rnd("size", 80, calls))
		if vc.Rnd("big", 3) == 0 {
			size *= 40
		} else if vc.Rnd("small", 2) == 0 {
			size /= 20
		}
		b := make([]byte, size)
		m, err := r.Read(b)
		if m < 0 || m > size {
			vc.Assert(false, "the count is within the buffer")
			return
		}
		got = append(got, b[:m]...)
		if err == nil {
			vc.Assert(m > 0 || size == 0, "a successful read makes progress")
			continue
		}
		vc.Assert(string(got) == string(want), "an error is reported with the bytes delivered, after every byte parsed before it")
		vc.Assert(!exact || err == end, "the stream's error is reported")
		return
	}
	vc.Assert(false, "the end of the stream is reported")
}

//verif:harness prop=T08 native=only
//verif:search 1000
func hnPESChannel() {
	if !vc.Native() {
		return
	}
	n := int(vc.Rnd("n", 8))
	in := make(chan *Packet)
	var want, got [][]byte
	for k := 0; k < n; k++ {
		want = append(want, nPESPacket("p", uint64(k), false, false).payload)
	}
	go func() {
		for _, b := range want {
			in <- &Packet{Payload: b}
		}
		close(in)
	}()
	for b := range PacketChannel(in).PayloadOnly() {
		got = append(got, b)
	}
	vc.Assert(len(got) == len(want), "every payload is delivered, and nothing else")
	for i := range got {
		vc.Assert(i < len(want) && string(got[i]) == string(want[i]), "payloads are delivered in order, unaltered")
	}
}
