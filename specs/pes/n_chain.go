package pes

import (
	"bytes"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/internal/vc"
	"github.com/32bitkid/mpeg/ts"
)

// nTS wraps b into transport packets of PID 0x100, with packets of another PID in between.
func nTS(name string, b []byte) []byte {
	var all []byte
	first := true
	for k := uint64(0); len(b) > 0; k++ {
		if vc.Rnd(name+".other", 4, k) == 0 {
			q := make([]byte, 188)
			q[0], q[1], q[2], q[3] = 0x47, 0x02, 0x00, 0x10
			all = append(all, q...)
		}
		n := 184
		if vc.Rnd(name+".short", 2, k) == 0 {
			n = int(vc.Rnd(name+".len", 183, k)) // none at all as well
		}
		if n > len(b) {
			n = len(b)
		}
		q := make([]byte, 188)
		q[0], q[1], q[3] = 0x47, 0x01, 0x10
		if first {
			q[1] |= 0x40
			first = false
		}
		if n < 184 {
			q[3] = 0x30
			q[4] = byte(183 - n)
		}
		copy(q[188-n:], b[:n])
		b = b[n:]
		all = append(all, q...)
	}
	return all
}

// hnChain: what a bit reader delivers over a chain of readers.
//
//verif:harness prop=R01 native=only
//verif:search 3000
func hnChain() {
	if !vc.Native() {
		return
	}
	n := int(vc.Rnd("n", 4)) + 1
	var es, want []byte
	for k := 0; k < n; k++ {
		p := nPESPacket("p", uint64(k), false, false)
		es = append(es, p.raw...)
		want = append(want, p.payload...)
	}
	var r io.Reader
	switch vc.Rnd("chain", 4) {
	case 0:
		r = NewPayloadReader(&nReader{b: es, err: io.EOF, nm: "src"})
	case 1:
		r, want = ts.NewPayloadReader(bytes.NewReader(nTS("ts", es)), ts.IsPID(0x100)), es
	case 2:
		r, want = ts.NewPayloadUnitReader(bytes.NewReader(nTS("ts", es)), ts.IsPID(0x100)), es
	default:
		r = NewPayloadReader(ts.NewPayloadReader(bytes.NewReader(nTS("ts", es)), ts.IsPID(0x100)))
	}
	if vc.Rnd("plain", 3) == 0 {
		// the reader itself
		for k, got := uint64(0), 0; k < 40000; k++ {
			b := make([]byte, vc.Rnd("size", 300, k)+1)
			m, err := r.Read(b)
			vc.Assert(m == 0 || err == nil, "no data is delivered along with an error")
			vc.Assert(m > 0 || err != nil, "a successful read makes progress")
			if m == 0 && err == nil {
				return
			}
			got += m
			if err != nil {
				vc.Assert(got == len(want), "an error is reported after every byte before it")
				return
			}
		}
	}
	br := bitreader.NewReader(r)
	for i, b := range want {
		v, err := br.Read8(8)
		if err != nil || v != b {
			vc.Assert(false, "a bit reader over the readers delivers every byte")
			_ = i
			return
		}
	}
	_, err := br.Read8(8)
	vc.Assert(err != nil, "the end is reported after the last byte")
}
