package main

import (
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

// The integer back end: queries with products of symbolic values, as problems of integer arithmetic. Every term stands for
// its value as a signed number; sums and products are translated only where their ranges show that they do not wrap, and
// anything else becomes a number about which only its range is known. An answer "unsat" is therefore exact, and any other
// answer means nothing.

type linBounds [2]*big.Int

type intProblem struct {
	c    *Ctx
	st   *State
	out  strings.Builder
	memo map[*Term]string
	rngs map[*Term]linBounds
	fact map[*Term]linBounds
	n    int
	// products are numbers of which only the range is known
	linear bool
}

func pow2i(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func fullRange(w int) linBounds {
	h := pow2i(w - 1)
	return linBounds{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
}

func (b linBounds) within(o linBounds) bool { return b[0].Cmp(o[0]) >= 0 && b[1].Cmp(o[1]) <= 0 }

func (b linBounds) meet(o linBounds) linBounds {
	if o[0] != nil && o[0].Cmp(b[0]) > 0 {
		b[0] = o[0]
	}
	if o[1] != nil && o[1].Cmp(b[1]) < 0 {
		b[1] = o[1]
	}
	return b
}

// sval is the value of a constant as a signed number.
func sval(k uint64, w int) *big.Int { return big.NewInt(sext64(k, w)) }

// learn notes the bounds that a literal gives.
func (l *intProblem) learn(t *Term) {
	neg := false
	if t.op == ONot {
		neg, t = true, t.args[0]
	}
	if t.op != OSlt {
		return
	}
	a, b := t.args[0], t.args[1]
	note := func(t *Term, lo, hi *big.Int) {
		f := l.fact[t]
		if lo != nil && (f[0] == nil || lo.Cmp(f[0]) > 0) {
			f[0] = lo
		}
		if hi != nil && (f[1] == nil || hi.Cmp(f[1]) < 0) {
			f[1] = hi
		}
		l.fact[t] = f
	}
	one := big.NewInt(1)
	if b.op == OConst && a.w == b.w {
		k := sval(b.k, b.w)
		if neg {
			note(a, k, nil)
		} else {
			note(a, nil, new(big.Int).Sub(k, one))
		}
	}
	if a.op == OConst {
		k := sval(a.k, a.w)
		if neg {
			note(b, nil, k)
		} else {
			note(b, new(big.Int).Add(k, one), nil)
		}
	}
}

// raw is the range of the sum or product before any wrapping.
func (l *intProblem) raw(t *Term) linBounds {
	switch t.op {
	case OLin:
		lo, hi := sval(t.k, t.w), sval(t.k, t.w)
		lo, hi = new(big.Int).Set(lo), new(big.Int).Set(hi)
		for i, a := range t.args {
			r, cf := l.rng(a), sval(t.coefs[i], t.w)
			p, q := new(big.Int).Mul(r[0], cf), new(big.Int).Mul(r[1], cf)
			if p.Cmp(q) > 0 {
				p, q = q, p
			}
			lo.Add(lo, p)
			hi.Add(hi, q)
		}
		return linBounds{lo, hi}
	case OMul:
		r := l.rng(t.args[0])
		for _, a := range t.args[1:] {
			s := l.rng(a)
			var lo, hi *big.Int
			for i := 0; i < 4; i++ {
				p := new(big.Int).Mul(r[i&1], s[i>>1])
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
			r = linBounds{lo, hi}
		}
		return r
	}
	panic("raw")
}

func (l *intProblem) exact(t *Term) bool { return l.raw(t).within(fullRange(t.w)) }

func (l *intProblem) rng(t *Term) linBounds {
	if r, ok := l.rngs[t]; ok {
		return r
	}
	r := fullRange(t.w)
	switch t.op {
	case OConst:
		k := sval(t.k, t.w)
		r = linBounds{k, k}
	case OZExt:
		if a := l.rng(t.args[0]); a[0].Sign() >= 0 {
			r = a
		} else {
			r = linBounds{big.NewInt(0), new(big.Int).SetUint64(mask(t.args[0].w))}
		}
	case OSExt:
		r = l.rng(t.args[0])
	case OLin, OMul:
		if q := l.raw(t); q.within(r) {
			r = q
		}
	case OAShr:
		if k := t.args[1]; k.op == OConst && k.k < 64 {
			a := l.rng(t.args[0])
			r = linBounds{new(big.Int).Rsh(a[0], uint(k.k)), new(big.Int).Rsh(a[1], uint(k.k))}
		}
	case OSDiv:
		if k := t.args[1]; k.op == OConst && sext64(k.k, k.w) > 0 {
			a := l.rng(t.args[0])
			r = linBounds{new(big.Int).Quo(a[0], sval(k.k, k.w)), new(big.Int).Quo(a[1], sval(k.k, k.w))}
		}
	case OIte:
		a, b := l.rng(t.args[1]), l.rng(t.args[2])
		r = a
		if b[0].Cmp(r[0]) < 0 {
			r[0] = b[0]
		}
		if b[1].Cmp(r[1]) > 0 {
			r[1] = b[1]
		}
	}
	if lo, hi := l.st.rng(t); hi <= mask(t.w)>>1 {
		r = r.meet(linBounds{new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)})
	}
	if f, ok := l.fact[t]; ok {
		r = r.meet(f)
	}
	l.rngs[t] = r
	return r
}

func num(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (l *intProblem) fresh(sort string) string {
	l.n++
	n := fmt.Sprintf("v%d", l.n)
	fmt.Fprintf(&l.out, "(declare-const %s %s)\n", n, sort)
	return n
}

func (l *intProblem) def(sort, e string) string {
	l.n++
	n := fmt.Sprintf("v%d", l.n)
	fmt.Fprintf(&l.out, "(define-fun %s () %s %s)\n", n, sort, e)
	return n
}

func (l *intProblem) opaque(t *Term) string {
	n := l.fresh("Int")
	r := l.rng(t)
	fmt.Fprintf(&l.out, "(assert (and (<= %s %s) (<= %s %s)))\n", num(r[0]), n, n, num(r[1]))
	return n
}

func (l *intProblem) term(t *Term) string {
	if s, ok := l.memo[t]; ok {
		return s
	}
	s := ""
	switch t.op {
	case OConst:
		s = num(sval(t.k, t.w))
	case OLin:
		if l.exact(t) {
			parts := []string{num(sval(t.k, t.w))}
			for i, a := range t.args {
				cf := sval(t.coefs[i], t.w)
				parts = append(parts, "(* "+num(cf)+" "+l.term(a)+")")
			}
			s = l.def("Int", "(+ "+strings.Join(parts, " ")+")")
		}
	case OMul:
		if !l.linear && l.exact(t) {
			var parts []string
			for _, a := range t.args {
				parts = append(parts, l.term(a))
			}
			s = l.def("Int", "(* "+strings.Join(parts, " ")+")")
		}
	case OZExt:
		a := l.term(t.args[0])
		if l.rng(t.args[0])[0].Sign() >= 0 {
			s = a
		} else {
			s = l.def("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", a, a, pow2i(t.args[0].w), a))
		}
	case OSExt:
		s = l.term(t.args[0])
	case OAShr:
		if k := t.args[1]; k.op == OConst && k.k < 32 {
			a := l.term(t.args[0])
			s = l.opaque(t)
			fmt.Fprintf(&l.out, "(assert (and (<= (* %d %s) %s) (< %s (+ (* %d %s) %d))))\n", 1<<k.k, s, a, a, 1<<k.k, s, 1<<k.k)
		}
	case OSDiv:
		if k := t.args[1]; k.op == OConst && sext64(k.k, k.w) > 0 {
			a, d := l.term(t.args[0]), sext64(k.k, k.w)
			s = l.opaque(t)
			fmt.Fprintf(&l.out, "(assert (ite (>= %s 0) (and (<= (* %d %s) %s) (< %s (+ (* %d %s) %d))) (and (>= (* %d %s) %s) (> %s (- (* %d %s) %d)))))\n", a, d, s, a, a, d, s, d, d, s, a, a, d, s, d)
		}
	case OIte:
		s = l.def("Int", fmt.Sprintf("(ite %s %s %s)", l.bool(t.args[0]), l.term(t.args[1]), l.term(t.args[2])))
	}
	if s == "" {
		s = l.opaque(t)
	}
	l.memo[t] = s
	return s
}

func (l *intProblem) bool(t *Term) string {
	if s, ok := l.memo[t]; ok {
		return s
	}
	s := ""
	switch t.op {
	case OConst:
		s = "false"
		if t.k == 1 {
			s = "true"
		}
	case ONot:
		s = "(not " + l.bool(t.args[0]) + ")"
	case OAnd, OOr:
		var parts []string
		for _, a := range t.args {
			parts = append(parts, l.bool(a))
		}
		s = l.def("Bool", "("+opNames[t.op]+" "+strings.Join(parts, " ")+")")
	case OIte:
		s = l.def("Bool", fmt.Sprintf("(ite %s %s %s)", l.bool(t.args[0]), l.bool(t.args[1]), l.bool(t.args[2])))
	case OEq:
		if t.args[0].w == 0 {
			s = "(= " + l.bool(t.args[0]) + " " + l.bool(t.args[1]) + ")"
		} else if t.args[0].w <= 64 {
			s = "(= " + l.term(t.args[0]) + " " + l.term(t.args[1]) + ")"
		}
	case OSlt:
		s = "(< " + l.term(t.args[0]) + " " + l.term(t.args[1]) + ")"
	case OUlt:
		a, b := l.term(t.args[0]), l.term(t.args[1])
		an, bn := l.rng(t.args[0])[0].Sign() >= 0, l.rng(t.args[1])[0].Sign() >= 0
		switch {
		case an && bn:
			s = "(< " + a + " " + b + ")"
		case bn:
			s = fmt.Sprintf("(and (<= 0 %s) (< %s %s))", a, a, b)
		default:
			s = fmt.Sprintf("(ite (= (< %s 0) (< %s 0)) (< %s %s) (< %s 0))", a, b, a, b, b)
		}
	}
	if s == "" {
		s = l.fresh("Bool")
	}
	l.memo[t] = s
	return s
}

// hard is true if t contains products of symbolic values, which the harness wants decided as integers.
func (x *Exec) hard(t *Term) bool {
	if x.h == nil || !x.h.integers {
		return false
	}
	if x.h.integersAll {
		return true
	}
	if r, ok := x.hardMemo[t]; ok {
		return r
	}
	r := t.op == OMul
	for _, a := range t.args {
		if r {
			break
		}
		r = x.hard(a)
	}
	x.hardMemo[t] = r
	return r
}

// soft is those of the literals that have no products.
func (x *Exec) soft(lits []*Term) []*Term {
	n := 0
	for _, l := range lits {
		if !x.hard(l) {
			n++
		}
	}
	if n == len(lits) {
		return lits
	}
	r := make([]*Term, 0, n)
	for _, l := range lits {
		if !x.hard(l) {
			r = append(r, l)
		}
	}
	return r
}

// linUnsat is true if lits and extra contradict each other.
func (x *Exec) linUnsat(st *State, lits []*Term, extra *Term, timeout time.Duration) bool {
	return x.intUnsat(st, lits, extra, min(timeout, time.Second), true) || x.intUnsat(st, lits, extra, timeout, false)
}

func (x *Exec) intUnsat(st *State, lits []*Term, extra *Term, timeout time.Duration, linear bool) bool {
	l := &intProblem{linear: linear, c: x.c, st: st, memo: map[*Term]string{}, rngs: map[*Term]linBounds{}, fact: map[*Term]linBounds{}}
	for _, t := range lits {
		l.learn(t)
	}
	l.learn(extra)
	for _, t := range append(append([]*Term{}, lits...), extra) {
		s := l.bool(t)
		fmt.Fprintf(&l.out, "(assert %s)\n", s)
	}
	// the assertion of a bound that was used to learn a range still states the bound: memoised terms keep both
	ctx, cancel := context.WithTimeout(context.Background(), timeout+time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-T:%d", max(1, int(timeout.Seconds()))))
	cmd.Stdin = strings.NewReader(l.out.String() + "(check-sat)\n")
	out, _ := cmd.Output()
	ok := strings.TrimSpace(string(out)) == "unsat"
	x.stats.add("z3-new (integers)", time.Since(t0), ok)
	return ok
}

// combo is a sum of multiples of terms.
type combo struct {
	k  *big.Int
	at map[*Term]*big.Int
}

func (l *intProblem) addTo(c *combo, t *Term, f *big.Int) {
	switch t.op {
	case OConst:
		c.k.Add(c.k, new(big.Int).Mul(f, sval(t.k, t.w)))
		return
	case OLin:
		if l.exact(t) {
			c.k.Add(c.k, new(big.Int).Mul(f, sval(t.k, t.w)))
			for i, a := range t.args {
				l.addTo(c, a, new(big.Int).Mul(f, sval(t.coefs[i], t.w)))
			}
			return
		}
	case OSExt:
		l.addTo(c, t.args[0], f)
		return
	case OZExt:
		if l.rng(t.args[0])[0].Sign() >= 0 {
			l.addTo(c, t.args[0], f)
			return
		}
	}
	if c.at[t] == nil {
		c.at[t] = new(big.Int)
	}
	c.at[t].Add(c.at[t], f)
}

// diff is a - b.
func (l *intProblem) diff(a, b *Term) *combo {
	c := &combo{new(big.Int), map[*Term]*big.Int{}}
	l.addTo(c, a, big.NewInt(1))
	l.addTo(c, b, big.NewInt(-1))
	return c
}

// most is an upper bound of c - d.
func (l *intProblem) most(c, d *combo) *big.Int {
	r := new(big.Int).Set(c.k)
	if d != nil {
		r.Sub(r, d.k)
	}
	add := func(t *Term, f *big.Int) {
		if f.Sign() == 0 {
			return
		}
		b := l.rng(t)[1]
		if f.Sign() < 0 {
			b = l.rng(t)[0]
		}
		r.Add(r, new(big.Int).Mul(f, b))
	}
	for t, f := range c.at {
		g := new(big.Int).Set(f)
		if d != nil && d.at[t] != nil {
			g.Sub(g, d.at[t])
		}
		add(t, g)
	}
	if d != nil {
		for t, f := range d.at {
			if c.at[t] == nil {
				add(t, new(big.Int).Neg(f))
			}
		}
	}
	return r
}

// less is a comparison that holds: the combination is at most the bound.
type less struct {
	c  *combo
	at int64
}

func (l *intProblem) facts(lits []*Term) (r []less) {
	for _, t := range lits {
		neg := false
		if t.op == ONot {
			neg, t = true, t.args[0]
		}
		if t.op != OSlt {
			continue
		}
		if neg {
			r = append(r, less{l.diff(t.args[1], t.args[0]), 0})
		} else {
			r = append(r, less{l.diff(t.args[0], t.args[1]), -1})
		}
	}
	return
}

// bounded is true if c ≤ k follows from the ranges of the terms and one of the facts.
func (l *intProblem) bounded(c *combo, k int64, facts []less) bool {
	if l.most(c, nil).Cmp(big.NewInt(k)) <= 0 {
		return true
	}
	for _, f := range facts {
		// c = (c - f) + f
		if l.most(c, f.c).Cmp(big.NewInt(k-f.at)) <= 0 {
			return true
		}
	}
	return false
}

func (x *Exec) ints(st *State, lits []*Term) *intProblem {
	l := &intProblem{c: x.c, st: st, memo: map[*Term]string{}, rngs: map[*Term]linBounds{}, fact: map[*Term]linBounds{}}
	for _, t := range lits {
		l.learn(t)
	}
	return l
}

// follows is true if the goal follows from one of the literals by arithmetic on differences.
func (x *Exec) follows(st *State, lits []*Term, goal *Term) bool {
	l := x.ints(st, lits)
	neg := false
	if goal.op == ONot {
		neg, goal = true, goal.args[0]
	}
	if goal.op != OSlt && goal.op != OUlt {
		return false
	}
	a, b := goal.args[0], goal.args[1]
	facts := l.facts(lits)
	if goal.op == OSlt {
		if neg {
			return l.bounded(l.diff(b, a), 0, facts)
		}
		return l.bounded(l.diff(a, b), -1, facts)
	}
	if neg {
		return false
	}
	zero := x.c.Const(0, a.w)
	return l.bounded(l.diff(zero, a), 0, facts) && l.bounded(l.diff(a, b), -1, facts)
}
