package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a term. Terms are hash-consed: equal terms are the same pointer.
type Op uint8

const (
	OConst Op = iota
	OVar
	OUF    // name(args)
	OSBits // bits [pos, pos+w) of stream name
	OLin   // k + sum coefs[i]*args[i]  (mod 2^w)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // i1=hi i2=lo
	OZExt
	OSExt
	OIte
	// boolean
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
)

var opNames = map[Op]string{OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt"}

type Term struct {
	op     Op
	w      int // 0 = Bool
	id     int
	args   []*Term
	coefs  []uint64
	k      uint64
	name   string
	i1, i2 int
	lo, hi uint64 // unsigned range (bit-vectors)
	size   int
}

// Ctx owns a term table.
type Ctx struct {
	tab   map[string]*Term
	all   []*Term
	tt    *Term
	ff    *Term
	fresh map[string]int
	// opaque products: when set, symbolic*symbolic products are not interpreted by the solver
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}}
	c.tt = c.mk(Term{op: OConst, w: 0, k: 1})
	c.ff = c.mk(Term{op: OConst, w: 0, k: 0})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (c *Ctx) mk(t Term) *Term {
	var sb strings.Builder
	sb.Grow(32 + 8*len(t.args))
	wr := func(v uint64) {
		for v >= 0x80 {
			sb.WriteByte(byte(v) | 0x80)
			v >>= 7
		}
		sb.WriteByte(byte(v))
	}
	sb.WriteByte(byte(t.op))
	wr(uint64(t.w))
	wr(t.k)
	wr(uint64(t.i1))
	wr(uint64(t.i2))
	for _, a := range t.args {
		wr(uint64(a.id))
	}
	sb.WriteByte(0)
	for _, a := range t.coefs {
		wr(a)
	}
	sb.WriteString(t.name)
	key := sb.String()
	if r, ok := c.tab[key]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.id = len(c.all) + 1
	r.size = 1
	c.computeRange(r)
	c.all = append(c.all, r)
	c.tab[key] = r
	return r
}

func (c *Ctx) computeRange(t *Term) {
	if t.w == 0 || t.w > 64 {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZExt:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
	case OIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case OBvAnd:
		h := m
		for _, a := range t.args {
			h = min(h, a.hi)
		}
		t.hi = h
	case OBvOr, OBvXor:
		var h uint64
		for _, a := range t.args {
			h |= a.hi
		}
		n := bits.Len64(h)
		t.hi = mask(n)
		if n > t.w {
			t.hi = m
		}
		if t.op == OBvOr {
			for _, a := range t.args {
				t.lo = max(t.lo, a.lo)
			}
		}
	case OLShr:
		if t.args[1].op == OConst && t.args[1].k < 64 {
			t.lo, t.hi = t.args[0].lo>>t.args[1].k, t.args[0].hi>>t.args[1].k
		} else {
			t.hi = t.args[0].hi
		}
	case OAShr:
		if t.args[0].hi < 1<<(uint(t.w)-1) {
			t.hi = t.args[0].hi
			if t.args[1].op == OConst && t.args[1].k < 64 {
				t.lo, t.hi = t.args[0].lo>>t.args[1].k, t.args[0].hi>>t.args[1].k
			}
		}
	case OUDiv:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].k, t.args[0].hi/t.args[1].k
		}
	case OURem:
		if t.args[1].op == OConst && t.args[1].k != 0 {
			t.hi = min(t.args[1].k-1, t.args[0].hi)
		}
	case OSDiv:
		if t.args[1].op == OConst && t.args[1].k != 0 && t.args[0].hi < 1<<(uint(t.w)-1) && t.args[1].k < 1<<(uint(t.w)-1) {
			t.lo, t.hi = t.args[0].lo/t.args[1].k, t.args[0].hi/t.args[1].k
		}
	case OConcat:
		// args[0] high
		sh := 0
		var l, h uint64
		for i := len(t.args) - 1; i >= 0; i-- {
			l |= t.args[i].lo << uint(sh)
			h |= t.args[i].hi << uint(sh)
			sh += t.args[i].w
		}
		// valid: concat is monotone lexicographically; bounds by piecewise are safe
		t.lo, t.hi = l, h
	case OExtract:
		if t.i2 == 0 {
			if t.args[0].hi <= m {
				t.lo, t.hi = t.args[0].lo, t.args[0].hi
			}
		} else if t.args[0].hi>>uint(t.i2) <= m {
			t.lo, t.hi = t.args[0].lo>>uint(t.i2), t.args[0].hi>>uint(t.i2)
		}
	case OMul:
		h, l := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.args[0].lo*t.args[1].lo, l
		}
	case OLin:
		// only when no wraparound possible with all coefs "positive"
		lo, hi := t.k, t.k
		ok := true
		for i, a := range t.args {
			cf := t.coefs[i]
			h1, l1 := bits.Mul64(a.hi, cf)
			if h1 != 0 {
				ok = false
				break
			}
			s, cr := bits.Add64(hi, l1, 0)
			if cr != 0 || s > m {
				ok = false
				break
			}
			hi = s
			lo += a.lo * cf
		}
		if ok {
			t.lo, t.hi = lo, hi
		}
	}
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}

func (c *Ctx) Const(v uint64, w int) *Term {
	return c.mk(Term{op: OConst, w: w, k: v & mask(w)})
}

func (c *Ctx) Int(v int64) *Term { return c.Const(uint64(v), 64) }

func (c *Ctx) Var(name string, w int) *Term { return c.mk(Term{op: OVar, w: w, name: name}) }

func (c *Ctx) Fresh(name string, w int) *Term {
	n := c.fresh[name]
	c.fresh[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s!%d", name, n)
	}
	return c.Var(name, w)
}

func (c *Ctx) FreshName(name string) string {
	n := c.fresh[name]
	c.fresh[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s!%d", name, n)
	}
	return name
}

func (c *Ctx) UF(name string, w int, args ...*Term) *Term {
	return c.mk(Term{op: OUF, w: w, name: name, args: append([]*Term{}, args...)})
}

// SBits is the big-endian value of n bits of stream s at bit position pos.
func (c *Ctx) SBits(s string, pos *Term, n int) *Term {
	if n == 0 {
		panic("SBits 0")
	}
	return c.mk(Term{op: OSBits, w: n, name: s, args: []*Term{pos}})
}

// ---- linear form ----

type lin struct {
	k  uint64
	at []*Term
	cf []uint64
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.k}
	case OLin:
		return lin{t.k, t.args, t.coefs}
	}
	return lin{0, []*Term{t}, []uint64{1}}
}

func addLin(a, b lin, w int) lin {
	m := mask(w)
	r := lin{k: (a.k + b.k) & m}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		if j >= len(b.at) || (i < len(a.at) && a.at[i].id < b.at[j].id) {
			r.at = append(r.at, a.at[i])
			r.cf = append(r.cf, a.cf[i])
			i++
		} else if i >= len(a.at) || b.at[j].id < a.at[i].id {
			r.at = append(r.at, b.at[j])
			r.cf = append(r.cf, b.cf[j])
			j++
		} else {
			s := (a.cf[i] + b.cf[j]) & m
			if s != 0 {
				r.at = append(r.at, a.at[i])
				r.cf = append(r.cf, s)
			}
			i++
			j++
		}
	}
	return r
}

func scaleLin(a lin, k uint64, w int) lin {
	m := mask(w)
	r := lin{k: (a.k * k) & m}
	for i := range a.at {
		s := (a.cf[i] * k) & m
		if s != 0 {
			r.at = append(r.at, a.at[i])
			r.cf = append(r.cf, s)
		}
	}
	return r
}

func (c *Ctx) fromLin(l lin, w int) *Term {
	if len(l.at) == 0 {
		return c.Const(l.k, w)
	}
	if len(l.at) == 1 && l.k == 0 && l.cf[0] == 1 {
		return l.at[0]
	}
	return c.mk(Term{op: OLin, w: w, k: l.k & mask(w), args: append([]*Term{}, l.at...), coefs: append([]uint64{}, l.cf...)})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Add width %d %d", a.w, b.w))
	}
	if a.op == OConst && a.k == 0 {
		return b
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	if r := c.distIte(a, b, c.Add); r != nil {
		return r
	}
	return c.fromLin(addLin(c.toLin(a), c.toLin(b), a.w), a.w)
}

// distIte distributes an operation over an ite with constant leaves and a constant other operand.
func (c *Ctx) distIte(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.op == OIte && b.op == OConst && constLeaves(a, 6) {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && constLeaves(b, 6) {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

func constLeaves(t *Term, depth int) bool {
	if t.op == OConst {
		return true
	}
	if depth == 0 {
		return false
	}
	return t.op == OIte && constLeaves(t.args[1], depth-1) && constLeaves(t.args[2], depth-1)
}

func (c *Ctx) Neg(a *Term) *Term {
	return c.fromLin(scaleLin(c.toLin(a), mask(a.w), a.w), a.w)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(0, a.w)
	}
	if r := c.distIte(a, b, c.Sub); r != nil {
		return r
	}
	return c.fromLin(addLin(c.toLin(a), scaleLin(c.toLin(b), mask(a.w), a.w), a.w), a.w)
}

func (c *Ctx) MulK(a *Term, k uint64) *Term {
	k &= mask(a.w)
	if k == 0 {
		return c.Const(0, a.w)
	}
	if k == 1 {
		return a
	}
	if a.op == OIte && constLeaves(a, 6) {
		return c.Ite(a.args[0], c.MulK(a.args[1], k), c.MulK(a.args[2], k))
	}
	return c.fromLin(scaleLin(c.toLin(a), k, a.w), a.w)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.MulK(b, a.k)
	}
	if b.op == OConst {
		return c.MulK(a, b.k)
	}
	// pull constant factors out of single-atom linear forms
	la, lb := c.toLin(a), c.toLin(b)
	if len(la.at) == 1 && la.k == 0 && la.cf[0] != 1 {
		return c.MulK(c.Mul(la.at[0], b), la.cf[0])
	}
	if len(lb.at) == 1 && lb.k == 0 && lb.cf[0] != 1 {
		return c.MulK(c.Mul(a, lb.at[0]), lb.cf[0])
	}
	// distribute small sums
	if a.op == OLin && len(la.at) <= 3 && len(lb.at) <= 3 {
		r := c.MulK(b, la.k)
		for i := range la.at {
			r = c.Add(r, c.MulK(c.Mul(la.at[i], b), la.cf[i]))
		}
		return r
	}
	if b.op == OLin && len(lb.at) <= 3 {
		r := c.MulK(a, lb.k)
		for i := range lb.at {
			r = c.Add(r, c.MulK(c.Mul(a, lb.at[i]), lb.cf[i]))
		}
		return r
	}
	// push products inside small choices
	if leaves(a) <= 4 && a.op == OIte {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if leaves(b) <= 4 && b.op == OIte {
		return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
	}
	// a product is a sorted list of factors
	fs := append(factors(a, nil), factors(b, nil)...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	r := fs[0]
	for _, f := range fs[1:] {
		r = c.mk(Term{op: OMul, w: a.w, args: []*Term{r, f}})
	}
	return r
}

func factors(t *Term, fs []*Term) []*Term {
	if t.op == OMul {
		return factors(t.args[1], factors(t.args[0], fs))
	}
	return append(fs, t)
}

// leaves counts the leaves of nested choices, up to 5.
func leaves(t *Term) int {
	if t.op != OIte {
		return 1
	}
	n := leaves(t.args[1])
	if n > 4 {
		return n
	}
	return n + leaves(t.args[2])
}

// ---- bit structure ----

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.Const(t.k>>uint(lo), w)
	case OExtract:
		return c.Extract(t.args[0], hi+t.i2, lo+t.i2)
	case OSBits:
		return c.SBits(t.name, c.Add(t.args[0], c.Const(uint64(t.w-1-hi), 64)), w)
	case OZExt:
		iw := t.args[0].w
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		if lo >= iw {
			return c.Const(0, w)
		}
		return c.ZExt(c.Extract(t.args[0], iw-1, lo), w)
	case OSExt:
		iw := t.args[0].w
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		if lo == 0 {
			return c.SExt(t.args[0], w)
		}
	case OConcat:
		off := t.w
		var parts []*Term
		for _, a := range t.args {
			off -= a.w // a occupies [off, off+a.w)
			l, h := max(lo, off), min(hi, off+a.w-1)
			if l <= h {
				parts = append(parts, c.Extract(a, h-off, l-off))
			}
		}
		return c.Concat(parts...)
	case OIte:
		if t.args[1].op == OConst || t.args[2].op == OConst || lo == 0 {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OBvAnd, OBvOr, OBvXor, OBvNot:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.Extract(a, hi, lo)
		}
		switch t.op {
		case OBvNot:
			return c.BvNot(as[0])
		}
		r := as[0]
		for _, a := range as[1:] {
			switch t.op {
			case OBvAnd:
				r = c.BvAnd(r, a)
			case OBvOr:
				r = c.BvOr(r, a)
			default:
				r = c.BvXor(r, a)
			}
		}
		return r
	case OLin:
		if lo == 0 { // truncation distributes over linear arithmetic
			r := c.Const(t.k, w)
			for i, a := range t.args {
				r = c.Add(r, c.MulK(c.Extract(a, hi, 0), t.coefs[i]))
			}
			return r
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case OLShr:
		if t.args[1].op == OConst && int(t.args[1].k)+hi < t.w {
			return c.Extract(t.args[0], hi+int(t.args[1].k), lo+int(t.args[1].k))
		}
	case OAShr:
		if t.args[1].op == OConst && int(t.args[1].k)+hi < t.w {
			return c.Extract(t.args[0], hi+int(t.args[1].k), lo+int(t.args[1].k))
		}
	}
	if lo == 0 && t.hi == 0 {
		return c.Const(0, w)
	}
	return c.mk(Term{op: OExtract, w: w, args: []*Term{t}, i1: hi, i2: lo})
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var ps []*Term
	for _, p := range parts {
		if p.op == OConcat {
			ps = append(ps, p.args...)
		} else if p.op == OZExt {
			ps = append(ps, c.Const(0, p.w-p.args[0].w))
			if p.args[0].op == OConcat {
				ps = append(ps, p.args[0].args...)
			} else {
				ps = append(ps, p.args[0])
			}
		} else {
			ps = append(ps, p)
		}
	}
	var out []*Term
	for _, p := range ps {
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == OConst && p.op == OConst && l.w+p.w <= 64 {
				out[n-1] = c.Const(l.k<<uint(p.w)|p.k, l.w+p.w)
				continue
			}
			if l.op == OSBits && p.op == OSBits && l.name == p.name && l.w+p.w <= 64 &&
				c.Add(l.args[0], c.Const(uint64(l.w), 64)) == p.args[0] {
				out[n-1] = c.SBits(l.name, l.args[0], l.w+p.w)
				continue
			}
			if l.op == OExtract && p.op == OExtract && l.args[0] == p.args[0] && l.i2 == p.i1+1 {
				out[n-1] = c.Extract(l.args[0], l.i1, p.i2)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	if out[0].op == OConst && out[0].k == 0 {
		return c.ZExt(c.Concat(out[1:]...), w)
	}
	return c.mk(Term{op: OConcat, w: w, args: out})
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	switch t.op {
	case OConst:
		return c.Const(t.k, w)
	case OZExt:
		return c.ZExt(t.args[0], w)
	case OIte:
		if constLeaves(t, 8) {
			return c.Ite(t.args[0], c.ZExt(t.args[1], w), c.ZExt(t.args[2], w))
		}
	case OLin:
		// no wraparound: extend each part
		if t.hi < mask(t.w) || (t.lo > 0) {
			if c.linNoWrap(t) {
				r := c.Const(t.k, w)
				for i, a := range t.args {
					r = c.Add(r, c.MulK(c.ZExt(a, w), t.coefs[i]))
				}
				return r
			}
		}
	}
	return c.mk(Term{op: OZExt, w: w, args: []*Term{t}})
}

func (c *Ctx) linNoWrap(t *Term) bool {
	hi := t.k
	m := mask(t.w)
	for i, a := range t.args {
		h1, l1 := bits.Mul64(a.hi, t.coefs[i])
		if h1 != 0 {
			return false
		}
		s, cr := bits.Add64(hi, l1, 0)
		if cr != 0 || s > m {
			return false
		}
		hi = s
	}
	return true
}

func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, w-1, 0)
	}
	if t.op == OConst {
		return c.Const(uint64(sext64(t.k, t.w)), w)
	}
	if t.hi < 1<<uint(t.w-1) {
		return c.ZExt(t, w)
	}
	if t.op == OSExt {
		return c.SExt(t.args[0], w)
	}
	if t.op == OIte && constLeaves(t, 8) {
		return c.Ite(t.args[0], c.SExt(t.args[1], w), c.SExt(t.args[2], w))
	}
	return c.mk(Term{op: OSExt, w: w, args: []*Term{t}})
}

func (c *Ctx) BvNot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(^a.k, a.w)
	}
	if a.op == OBvNot {
		return a.args[0]
	}
	return c.mk(Term{op: OBvNot, w: a.w, args: []*Term{a}})
}

// bitStructured: terms whose shifts are better kept as concatenations.
func bitStructured(t *Term) bool {
	switch t.op {
	case OSBits, OConcat, OExtract:
		return true
	case OZExt:
		return bitStructured(t.args[0]) || t.args[0].op == OVar || t.args[0].op == OUF
	}
	return false
}

func (c *Ctx) BvAnd(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k&b.k, a.w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		// keep only what can be set
		if a.hi <= mask(bits.TrailingZeros64(^b.k)) {
			return a
		}
		// contiguous mask -> extract
		tz := bits.TrailingZeros64(b.k)
		run := bits.TrailingZeros64(^(b.k >> uint(tz)))
		if b.k>>uint(tz) == mask(run) {
			parts := []*Term{}
			top := a.w - tz - run
			if top > 0 {
				parts = append(parts, c.Const(0, top))
			}
			parts = append(parts, c.Extract(a, tz+run-1, tz))
			if tz > 0 {
				parts = append(parts, c.Const(0, tz))
			}
			return c.Concat(parts...)
		}
		if a.op == OIte && constLeaves(a, 8) {
			return c.Ite(a.args[0], c.BvAnd(a.args[1], b), c.BvAnd(a.args[2], b))
		}
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OBvAnd, w: a.w, args: []*Term{a, b}})
}

// knownZero returns a mask of bits known to be zero.
func knownZero(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return ^t.k & m
	case OZExt:
		return (knownZero(t.args[0]) | ^mask(t.args[0].w)) & m
	case OConcat:
		var z uint64
		off := t.w
		for _, a := range t.args {
			off -= a.w
			z |= knownZero(a) << uint(off)
		}
		return z & m
	case OLin:
		tz := 64
		if t.k != 0 {
			tz = bits.TrailingZeros64(t.k)
		}
		for i, a := range t.args {
			az := bits.TrailingZeros64(^knownZero(a))
			tz = min(tz, bits.TrailingZeros64(t.coefs[i])+az)
		}
		z := mask(min(tz, 64))
		n := bits.Len64(t.hi)
		return (z | ^mask(n)) & m
	case OIte:
		return knownZero(t.args[1]) & knownZero(t.args[2])
	}
	n := bits.Len64(t.hi)
	return ^mask(n) & m
}

func (c *Ctx) BvOr(a, b *Term) *Term {
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.k|b.k, a.w)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	za, zb := knownZero(a), knownZero(b)
	if (za|zb)&mask(a.w) == mask(a.w) {
		// disjoint: try to build a concatenation when each side splits cleanly at one boundary
		for _, sw := range [][2]*Term{{a, b}, {b, a}} {
			h, l := sw[0], sw[1]
			n := bits.Len64(^knownZero(l) & mask(a.w))
			if n < a.w && n > 0 && knownZero(h)&mask(n) == mask(n) {
				return c.Concat(c.Extract(h, a.w-1, n), c.Extract(l, n-1, 0))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OBvOr, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) BvXor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.k^b.k, a.w)
	}
	if a == b {
		return c.Const(0, a.w)
	}
	if b.op == OConst && b.k == 0 {
		return a
	}
	if a.op == OConst && a.k == 0 {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OBvXor, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Shl(a, s *Term) *Term {
	if s.op == OConst {
		if s.k >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if s.k == 0 {
			return a
		}
		if a.op == OConst {
			return c.Const(a.k<<s.k, a.w)
		}
		if bitStructured(a) {
			return c.Concat(c.Extract(a, a.w-1-int(s.k), 0), c.Const(0, int(s.k)))
		}
		return c.MulK(a, 1<<s.k)
	}
	if r := c.shiftIte(a, s, c.Shl); r != nil {
		return r
	}
	return c.mk(Term{op: OShl, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) shiftIte(a, s *Term, f func(x, y *Term) *Term) *Term {
	if s.op == OIte && constLeaves(s, 5) {
		return c.Ite(s.args[0], f(a, s.args[1]), f(a, s.args[2]))
	}
	if s.hi < 16 && s.op != OConst && s.op != OIte { // small symbolic shift: case split
		r := f(a, c.Const(s.hi, s.w))
		for k := int64(s.hi) - 1; k >= int64(s.lo); k-- {
			r = c.Ite(c.Eq(s, c.Const(uint64(k), s.w)), f(a, c.Const(uint64(k), s.w)), r)
		}
		return r
	}
	return nil
}

func (c *Ctx) LShr(a, s *Term) *Term {
	if s.op == OConst {
		if s.k >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		if s.k == 0 {
			return a
		}
		return c.ZExt(c.Extract(a, a.w-1, int(s.k)), a.w)
	}
	if r := c.shiftIte(a, s, c.LShr); r != nil {
		return r
	}
	return c.mk(Term{op: OLShr, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) AShr(a, s *Term) *Term {
	if s.op == OConst {
		if s.k == 0 {
			return a
		}
		if a.op == OConst {
			k := s.k
			if k > 63 {
				k = 63
			}
			return c.Const(uint64(sext64(a.k, a.w)>>k), a.w)
		}
		if a.hi < 1<<uint(a.w-1) {
			return c.LShr(a, s)
		}
		if s.k >= uint64(a.w) {
			s = c.Const(uint64(a.w-1), s.w)
		}
	} else if r := c.shiftIte(a, s, c.AShr); r != nil {
		return r
	}
	return c.mk(Term{op: OAShr, w: a.w, args: []*Term{a, s}})
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return c.Const(a.k/b.k, a.w)
	}
	if b.op == OConst && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.LShr(a, c.Const(uint64(bits.TrailingZeros64(b.k)), a.w))
	}
	return c.mk(Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) URem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return c.Const(a.k%b.k, a.w)
	}
	if b.op == OConst && b.k != 0 && b.k&(b.k-1) == 0 {
		return c.BvAnd(a, c.Const(b.k-1, a.w))
	}
	return c.mk(Term{op: OURem, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return c.Const(uint64(sext64(a.k, a.w)/sext64(b.k, b.w)), a.w)
	}
	hb := uint64(1) << uint(a.w-1)
	if a.hi < hb && b.hi < hb {
		return c.UDiv(a, b)
	}
	if b.op == OConst && b.k != 0 && b.k < hb && b.k&(b.k-1) == 0 { // truncation toward zero
		if b.k == 1 {
			return a
		}
		n := c.Const(uint64(bits.TrailingZeros64(b.k)), a.w)
		z := c.Const(0, a.w)
		return c.AShr(c.Add(a, c.Ite(c.Slt(a, z), c.Const(b.k-1, a.w), z)), n)
	}
	return c.mk(Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.k != 0 {
		return c.Const(uint64(sext64(a.k, a.w)%sext64(b.k, b.w)), a.w)
	}
	hb := uint64(1) << uint(a.w-1)
	if a.hi < hb && b.hi < hb {
		return c.URem(a, b)
	}
	return c.mk(Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	}
	return c.mk(Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, as []*Term) *Term {
	unit, zero := c.tt, c.ff
	if op == OOr {
		unit, zero = c.ff, c.tt
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	// absorption: x | (x & y) = x and x | (!x & y) = x | y, and dually
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	for i, t := range out {
		if t.op != dual {
			continue
		}
		var keep []*Term
		absorbed := false
		for _, a := range t.args {
			if seen[a] {
				absorbed = true
				break
			}
			if !seen[c.Not(a)] {
				keep = append(keep, a)
			}
		}
		if !absorbed && len(keep) == len(t.args) {
			continue
		}
		rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
		if !absorbed {
			rest = append(rest, c.nary(dual, keep))
		}
		return c.nary(op, rest)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(Term{op: op, args: out})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, as) }

// Or factors out conjuncts common to all disjuncts.
func (c *Ctx) Or(as ...*Term) *Term {
	if len(as) >= 2 {
		cnt := map[*Term]int{}
		for _, a := range as {
			if a.op == OAnd {
				for _, x := range a.args {
					cnt[x]++
				}
			} else {
				cnt[a]++
			}
		}
		var common []*Term
		for t, n := range cnt {
			if n == len(as) {
				common = append(common, t)
			}
		}
		if len(common) > 0 {
			cm := map[*Term]bool{}
			for _, t := range common {
				cm[t] = true
			}
			sort.Slice(common, func(i, j int) bool { return common[i].id < common[j].id })
			var rest []*Term
			for _, a := range as {
				if a.op == OAnd {
					var r []*Term
					for _, x := range a.args {
						if !cm[x] {
							r = append(r, x)
						}
					}
					rest = append(rest, c.And(r...))
				} else {
					rest = append(rest, c.tt)
				}
			}
			return c.And(append(common, c.nary(OOr, rest))...)
		}
	}
	return c.nary(OOr, as)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d: %s / %s", a.w, b.w, a, b))
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b == c.tt {
			return a
		}
		if b == c.ff {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.ff
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(Term{op: OEq, args: []*Term{a, b}})
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.ff
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OConst:
			return c.Bool(a.k == b.k)
		case OZExt:
			if b.k > mask(a.args[0].w) {
				return c.ff
			}
			return c.Eq(a.args[0], c.Const(b.k, a.args[0].w))
		case OSExt:
			in := a.args[0]
			v := c.Const(b.k, in.w)
			if uint64(sext64(v.k, in.w))&mask(a.w) != b.k {
				return c.ff
			}
			return c.Eq(in, v)
		case OShl:
			// 1<<n == 2^k exactly if n == k
			if a.args[0].op == OConst && a.args[0].k == 1 && b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Eq(a.args[1], c.Const(uint64(bits.TrailingZeros64(b.k)), a.args[1].w))
			}
		case OConcat:
			var cs []*Term
			off := a.w
			for _, p := range a.args {
				off -= p.w
				cs = append(cs, c.Eq(p, c.Const(b.k>>uint(off), p.w)))
			}
			return c.And(cs...)
		case OBvNot:
			return c.Eq(a.args[0], c.Const(^b.k, a.w))
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.op == OConst || y.op == OConst || constLeaves(a, 10) {
				ex, ey := c.Eq(x, b), c.Eq(y, b)
				return c.Or(c.And(a.args[0], ex), c.And(c.Not(a.args[0]), ey))
			}
		case OLin:
			if a.k != 0 {
				l := c.toLin(a)
				k := l.k
				l.k = 0
				return c.Eq(c.fromLin(l, a.w), c.Const(b.k-k, a.w))
			}
			if len(a.args) == 1 && a.coefs[0] == mask(a.w) {
				return c.Eq(a.args[0], c.Const(-b.k, a.w))
			}
			// first coefficient negative: negate both sides for a canonical form
			if a.coefs[0] > mask(a.w)>>1 && a.coefs[0] != 1<<uint(a.w-1) {
				return c.Eq(c.Neg(a), c.Const(-b.k, a.w))
			}
			if len(a.args) == 1 { // odd coefficient invertible
				cf := a.coefs[0]
				if cf&1 == 1 {
					inv := modInv(cf)
					return c.Eq(a.args[0], c.Const(b.k*inv, a.w))
				}
				// even coefficient without wraparound
				if h, l := bits.Mul64(a.args[0].hi, cf); h == 0 && l <= mask(a.w) {
					if b.k%cf != 0 {
						return c.ff
					}
					return c.Eq(a.args[0], c.Const(b.k/cf, a.w))
				}
			}
		}
	} else if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.op == OConst {
			return c.Bool(d.k == 0)
		}
		// canonical: d == 0 with leading coefficient 1, written as rest
		l := c.toLin(d)
		if len(l.at) != 2 || l.k != 0 || !(l.cf[0] == 1 && l.cf[1] == mask(a.w)) && !(l.cf[1] == 1 && l.cf[0] == mask(a.w)) {
			return c.Eq(d, c.Const(0, a.w))
		}
		a, b = l.at[0], l.at[1]
		return c.Eq(a, b)
	} else if a.op == OZExt && b.op == OZExt {
		x, y := a.args[0], b.args[0]
		w := max(x.w, y.w)
		return c.Eq(c.ZExt(x, w), c.ZExt(y, w))
	} else if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return c.Or(c.And(a.args[0], c.Eq(a.args[1], b.args[1])), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b.args[2])))
	} else if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OEq, args: []*Term{a, b}})
}

func modInv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.ff
	}
	if a.hi < b.lo {
		return c.tt
	}
	if a.lo >= b.hi {
		return c.ff
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if b.op == OConst && a.op == OZExt && b.k <= mask(a.args[0].w) {
		return c.Ult(a.args[0], c.Const(b.k, a.args[0].w))
	}
	if a.op == OConst && b.op == OZExt && a.k <= mask(b.args[0].w) {
		return c.Ult(c.Const(a.k, b.args[0].w), b.args[0])
	}
	if b.op == OConst && b.k == 1 {
		return c.Eq(a, c.Const(0, a.w))
	}
	if a.op == OConst && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	// canonical direction for constants: const < x  <=> not (x < const+1)
	if a.op == OConst && a.k < mask(a.w) {
		return c.Not(c.Ult(b, c.Const(a.k+1, a.w)))
	}
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Or(c.And(a.args[0], c.Ult(a.args[1], b)), c.And(c.Not(a.args[0]), c.Ult(a.args[2], b)))
	}
	return c.mk(Term{op: OUlt, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.ff
	}
	hb := uint64(1) << uint(a.w-1)
	if a.hi < hb && b.hi < hb {
		return c.Ult(a, b)
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if a.lo >= hb && b.hi < hb {
		return c.tt
	}
	if a.hi < hb && b.lo >= hb {
		return c.ff
	}
	if a.op == OConst && a.k != hb-1 { // const < x <=> not (x < const+1)
		return c.Not(c.Slt(b, c.Const(a.k+1, a.w)))
	}
	if a.op == OSExt && b.op == OConst {
		in := a.args[0]
		lo, hi := -(int64(1) << uint(in.w-1)), int64(1)<<uint(in.w-1)-1
		v := sext64(b.k, b.w)
		if v > hi {
			return c.tt
		}
		if v <= lo {
			return c.ff
		}
		return c.Slt(in, c.Const(uint64(v), in.w))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Or(c.And(a.args[0], c.Slt(a.args[1], b)), c.And(c.Not(a.args[0]), c.Slt(a.args[2], b)))
	}
	return c.mk(Term{op: OSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.tt {
		return a
	}
	if cond == c.ff {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Ite width %d %d", a.w, b.w))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a == c.tt {
			return c.Or(cond, b)
		}
		if a == c.ff {
			return c.And(c.Not(cond), b)
		}
		if b == c.tt {
			return c.Or(c.Not(cond), a)
		}
		if b == c.ff {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a { // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	return c.mk(Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		if t.w == 64 || t.w == 32 {
			return fmt.Sprint(sext64(t.k, t.w))
		}
		return fmt.Sprintf("%#x", t.k)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var as []string
	for i, a := range t.args {
		if i > 12 {
			as = append(as, "…")
			break
		}
		s := a.str(d - 1)
		if t.op == OLin && t.coefs[i] != 1 {
			s = fmt.Sprintf("%d*%s", sext64(t.coefs[i], t.w), s)
		}
		as = append(as, s)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case OUF:
		return fmt.Sprintf("%s(%s)", t.name, j)
	case OSBits:
		return fmt.Sprintf("%s[%s:%d]", t.name, j, t.w)
	case OLin:
		return fmt.Sprintf("(+ %d %s)", sext64(t.k, t.w), j)
	case OExtract:
		return fmt.Sprintf("(extract %d %d %s)", t.i1, t.i2, j)
	case OZExt:
		return fmt.Sprintf("(zext%d %s)", t.w, j)
	case OSExt:
		return fmt.Sprintf("(sext%d %s)", t.w, j)
	}
	return fmt.Sprintf("(%s %s)", opNames[t.op], j)
}
