package vc

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
)

func InvBuf(b *bytes.Buffer, n int, f func(i int) byte, label string) {}

// SetBuf fills a buffer.
func SetBuf(b *bytes.Buffer, n int, f func(i int) byte) {
	b.Reset()
	for i := 0; i < n; i++ {
		b.WriteByte(f(i))
	}
}

func BufLen(b *bytes.Buffer) int        { return b.Len() }
func BufAt(b *bytes.Buffer, i int) byte { return b.Bytes()[i] }

func SetSeq(s []byte, off, n int, f func(i int) byte) {
	for i := 0; i < n; i++ {
		s[off+i] = f(i)
	}
}

func SetPos(r interface{}, pos uint64) {
	s, p := underlying(r)
	if pos > p {
		s.BitReader.Skip(uint(pos - p))
	}
}

// Inputs describes the streams of the last run.
func Inputs() string {
	r := ""
	for n, s := range streams {
		d := s.data
		t := ""
		if len(d) > 2000 {
			d, t = d[:2000], "..."
		}
		r += fmt.Sprintf("stream %s: %d bytes %x%s then %v; ", n, len(s.data), d, t, s.err)
	}
	return r
}

func UFErr(name string, args ...uint64) error { return errID(value(name, 32, args...)) }

// IsTail: p is q[n:].
func IsTail(p, q []byte, n int) bool { return true }

// IsWindow: p begins at q[n].
func IsWindow(p, q []byte, n int) bool {
	return n >= 0 && n <= len(q) && (len(p) == 0 || n < len(q) && &p[0] == &q[n])
}

// SetElems makes the slice p points to one of n elements, element i being gen(i).
func SetElems(p interface{}, n int, gen interface{}) {
	s := reflect.ValueOf(p).Elem()
	v := reflect.MakeSlice(s.Type(), n, n)
	for i := 0; i < n; i++ {
		v.Index(i).Set(reflect.ValueOf(gen).Call([]reflect.Value{reflect.ValueOf(i)})[0])
	}
	s.Set(v)
}

// InvElems: the slice s has n elements and pred(i, s[i]) holds of each.
func InvElems(s interface{}, n int, pred interface{}, label string) {}

// InverseDCT asserts that out is the inverse transform of in, where in lies in lo..hi, within milli/1000; when samples > 0
// only if the exact transform lies in -samples..samples.
func InverseDCT(label string, in, out []int32, lo, hi, samples, milli int) {
	var c [8][8]float64
	for u := range c {
		for x := range c[u] {
			c[u][x] = 0.5 * math.Cos(float64((2*x+1)*u)*math.Pi/16)
			if u == 0 {
				c[u][x] = math.Sqrt(0.125)
			}
		}
	}
	var rows, exact [64]float64
	for v := 0; v < 8; v++ {
		for x := 0; x < 8; x++ {
			for u := 0; u < 8; u++ {
				rows[8*v+x] += float64(in[8*v+u]) * c[u][x]
			}
		}
	}
	worst := 0.0
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			for v := 0; v < 8; v++ {
				exact[8*y+x] += rows[8*v+x] * c[v][y]
			}
			if samples > 0 && math.Abs(exact[8*y+x]) > float64(samples) {
				return
			}
			worst = math.Max(worst, math.Abs(float64(out[8*y+x])-exact[8*y+x]))
		}
	}
	if worst > float64(milli)/1000 {
		fail(fmt.Sprintf("%s: accuracy (off by %.2f)", label, worst))
	}
}
