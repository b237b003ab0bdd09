package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// The affine back end decides goals about integer computations that are linear up to rounding: additions, products with
// constants, arithmetic shifts, and choices between branches that agree. A term becomes an affine form over the inputs
// and one noise variable per rounding; a machine operation whose form leaves the range of its type is an obligation
// (no overflow), and a bound on a form is a query of linear real arithmetic over a box.

type affVar struct {
	lo, hi *big.Rat
	t      *Term // the input it stands for
}

type affForm struct {
	k  *big.Rat
	cf map[int]*big.Rat
}

type affine struct {
	x       *Exec
	st      *State
	vars    []affVar
	byTerm  map[*Term]int
	memo    map[*Term]*affForm
	rounded map[*Term]int
	where   string
	err     string
	checked map[*Term]bool
	ovf     []*Term
	z3      *lraSolver
	// when samples is set the inputs are bounded through their inverse transform
	samples  *big.Rat
	basis    [][]*big.Rat
	queries  int
	overflow func(form *affForm, w int) bool
}

func rat(n int64) *big.Rat { return big.NewRat(n, 1) }

func pow2(n int) *big.Rat {
	if n >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	return new(big.Rat).Inv(pow2(-n))
}

func (a *affine) constant(v *big.Rat) *affForm { return &affForm{k: v, cf: map[int]*big.Rat{}} }

func (f *affForm) addScaled(g *affForm, s *big.Rat) {
	f.k = new(big.Rat).Add(f.k, new(big.Rat).Mul(g.k, s))
	for v, c := range g.cf {
		p := new(big.Rat).Mul(c, s)
		if o := f.cf[v]; o != nil {
			p.Add(p, o)
		}
		if p.Sign() == 0 {
			delete(f.cf, v)
		} else {
			f.cf[v] = p
		}
	}
}

func (f *affForm) clone() *affForm {
	g := &affForm{k: f.k, cf: map[int]*big.Rat{}}
	for v, c := range f.cf {
		g.cf[v] = c
	}
	return g
}

func (a *affine) noise(lo, hi *big.Rat) int {
	a.vars = append(a.vars, affVar{lo: lo, hi: hi})
	return len(a.vars) - 1
}

// bounds is the exact range of a form over the box of its variables.
func (a *affine) bounds(f *affForm) (lo, hi *big.Rat) {
	lo, hi = new(big.Rat).Set(f.k), new(big.Rat).Set(f.k)
	add := func(c, l, h *big.Rat) {
		p, q := new(big.Rat).Mul(c, l), new(big.Rat).Mul(c, h)
		if c.Sign() < 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	var in *affForm
	for v, c := range f.cf {
		if a.samples != nil && a.vars[v].t != nil {
			if in == nil {
				in = &affForm{k: rat(0), cf: map[int]*big.Rat{}}
			}
			in.cf[v] = c
			continue
		}
		add(c, a.vars[v].lo, a.vars[v].hi)
	}
	if in != nil {
		for j := range a.basis[0] {
			s := rat(0)
			for v, c := range in.cf {
				s.Add(s, new(big.Rat).Mul(c, a.basis[v][j]))
			}
			add(s, new(big.Rat).Neg(a.samples), a.samples)
		}
	}
	return lo, hi
}

// inRange is true if the signed w-bit value of a term is the value of its form.
func (a *affine) inRange(t *Term, f *affForm) bool {
	lo, hi := a.bounds(f)
	return lo.Cmp(new(big.Rat).Neg(pow2(t.w-1))) >= 0 && hi.Cmp(new(big.Rat).Sub(pow2(t.w-1), rat(1))) <= 0
}

// raw is a form congruent to the term modulo 2^w.
func (a *affine) raw(t *Term) *affForm {
	if f := a.memo[t]; f != nil {
		return f
	}
	f := a.raw1(t)
	if f != nil {
		a.memo[t] = f
	}
	return f
}

// eval is the form of the signed value of a term; leaving the range of its type is a failed obligation.
func (a *affine) eval(t *Term) *affForm {
	f := a.raw(t)
	if f == nil {
		return nil
	}
	if !a.checked[t] {
		a.checked[t] = true
		if t.op != OVar && t.op != OUF && t.op != OConst {
			a.queries++
			if !a.overflow(f, t.w) {
				a.ovf = append(a.ovf, t)
			}
		}
	}
	return f
}

func (a *affine) fail(format string, args ...interface{}) *affForm {
	if a.err == "" {
		a.err = fmt.Sprintf(format, args...)
	}
	return nil
}

func (a *affine) raw1(t *Term) *affForm {
	switch t.op {
	case OConst:
		return a.constant(rat(sext64(t.k, t.w)))
	case OVar, OUF:
		if v, ok := a.byTerm[t]; ok {
			return &affForm{k: rat(0), cf: map[int]*big.Rat{v: rat(1)}}
		}
	case OLin:
		f := a.constant(rat(sext64(t.k, t.w)))
		for i, b := range t.args {
			g := a.raw(b)
			if g == nil {
				return nil
			}
			f.addScaled(g, rat(sext64(t.coefs[i], t.w)))
		}
		return f
	case OAShr, OLShr:
		if t.args[1].op != OConst {
			return a.fail("shift by a variable")
		}
		g := a.eval(t.args[0])
		if g == nil {
			return nil
		}
		if t.op == OLShr {
			if lo, _ := a.bounds(g); lo.Sign() < 0 {
				return a.fail("logical shift of a negative value")
			}
		}
		return a.shifted(t, g, int(t.args[1].k))
	case OSExt:
		return a.eval(t.args[0])
	case OZExt:
		g := a.eval(t.args[0])
		if g == nil {
			return nil
		}
		if lo, _ := a.bounds(g); lo.Sign() < 0 {
			return a.fail("zero extension of a negative value")
		}
		return g
	case OExtract:
		g := a.raw(t.args[0])
		if g == nil {
			return nil
		}
		return a.shifted(t, g, t.i2)
	case OIte:
		p, q := a.zeros(t.args[0], true), a.zeros(t.args[0], false)
		b1, b2 := t.args[1], t.args[2]
		// a branch taken only where some inputs are zero, and equal to the other one there
		if q != nil && a.agree(b1, b2, q) {
			return a.eval(b1)
		}
		if p != nil && a.agree(b2, b1, p) {
			return a.eval(b2)
		}
		f, g := a.eval(b1), a.eval(b2)
		if f == nil || g == nil {
			return nil
		}
		d := g.clone()
		d.addScaled(f, rat(-1))
		lo, hi := a.bounds(d)
		if lo.Sign() > 0 {
			lo = rat(0)
		}
		if hi.Sign() < 0 {
			hi = rat(0)
		}
		r := f.clone()
		r.cf[a.noise(lo, hi)] = rat(1)
		return r
	}
	return a.fail("operation %s is not linear", t.str(2))
}

func (a *affine) shifted(t *Term, g *affForm, k int) *affForm {
	if k == 0 {
		return g
	}
	s := pow2(-k)
	f := a.constant(rat(0))
	f.addScaled(g, s)
	f.cf[a.noise(rat(0), new(big.Rat).Sub(rat(1), s))] = rat(-1)
	return f
}

// zeros lists the inputs that are zero where a condition has the given value.
func (a *affine) zeros(t *Term, val bool) map[*Term]*Term {
	switch {
	case t.op == ONot:
		return a.zeros(t.args[0], !val)
	case t.op == OAnd && val, t.op == OOr && !val:
		var r map[*Term]*Term
		for _, b := range t.args {
			for v, z := range a.zeros(b, val) {
				if r == nil {
					r = map[*Term]*Term{}
				}
				r[v] = z
			}
		}
		return r
	case t.op == OEq && val:
		for i, b := range t.args {
			if z := t.args[1-i]; z.op == OConst && (b.op == OVar || b.op == OUF) {
				return map[*Term]*Term{b: z}
			}
		}
	}
	return nil
}

// agree is true if two terms are equal where some inputs have known values.
func (a *affine) agree(t, u *Term, known map[*Term]*Term) bool {
	c := a.x.c
	memo := map[*Term]*Term{}
	t, u = c.subst(t, known, memo), c.subst(u, known, memo)
	if t == u {
		return true
	}
	a.queries++
	return a.x.solver.Check(a.st.literals(), c.Not(c.Eq(t, u)), 4000) == Unsat
}

// subst replaces variables.
func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.subst(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = c.rebuild(t, as)
	}
	memo[t] = r
	return r
}

// rebuild applies the operation of t to other arguments.
func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OUF:
		return c.UF(t.name, t.w, as...)
	case OSBits:
		return c.SBits(t.name, as[0], t.w)
	case OLin:
		r := c.Const(t.k, t.w)
		for i, a := range as {
			r = c.Add(r, c.MulK(a, t.coefs[i]))
		}
		return r
	case OMul:
		return c.Mul(as[0], as[1])
	case OUDiv:
		return c.UDiv(as[0], as[1])
	case OURem:
		return c.URem(as[0], as[1])
	case OSDiv:
		return c.SDiv(as[0], as[1])
	case OSRem:
		return c.SRem(as[0], as[1])
	case OBvAnd:
		return c.BvAnd(as[0], as[1])
	case OBvOr:
		return c.BvOr(as[0], as[1])
	case OBvXor:
		return c.BvXor(as[0], as[1])
	case OBvNot:
		return c.BvNot(as[0])
	case OShl:
		return c.Shl(as[0], as[1])
	case OLShr:
		return c.LShr(as[0], as[1])
	case OAShr:
		return c.AShr(as[0], as[1])
	case OConcat:
		return c.Concat(as...)
	case OExtract:
		return c.Extract(as[0], t.i1, t.i2)
	case OZExt:
		return c.ZExt(as[0], t.w)
	case OSExt:
		return c.SExt(as[0], t.w)
	case OIte:
		return c.Ite(as[0], as[1], as[2])
	case ONot:
		return c.Not(as[0])
	case OAnd:
		return c.And(as...)
	case OOr:
		return c.Or(as...)
	case OEq:
		return c.Eq(as[0], as[1])
	case OUlt:
		return c.Ult(as[0], as[1])
	case OSlt:
		return c.Slt(as[0], as[1])
	}
	panic("rebuild: " + fmt.Sprint(t.op))
}

// lraSolver asks z3 about linear real arithmetic, in several processes.
type lraSolver struct {
	buf [6]strings.Builder
	n   int
}

func smtRat(r *big.Rat) string {
	n, d := r.Num(), r.Denom()
	s := new(big.Int).Abs(n).String()
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + ".0 " + d.String() + ".0)"
	} else {
		s += ".0"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

// ask adds the query: can the form exceed hi or fall below lo over the box.
func (l *lraSolver) ask(a *affine, f *affForm, lo, hi *big.Rat) {
	b := &l.buf[l.n%len(l.buf)]
	b.WriteString("(push 1)\n")
	var terms []string
	box := func(name string, lo, hi *big.Rat) {
		fmt.Fprintf(b, "(declare-const %s Real)\n(assert (and (<= %s %s) (<= %s %s)))\n", name, smtRat(lo), name, name, smtRat(hi))
	}
	in := map[int]*big.Rat{}
	for v := range a.vars {
		c := f.cf[v]
		if c == nil {
			continue
		}
		if a.samples != nil && a.vars[v].t != nil {
			in[v] = c
			continue
		}
		n := fmt.Sprintf("v%d", v)
		box(n, a.vars[v].lo, a.vars[v].hi)
		terms = append(terms, fmt.Sprintf("(* %s %s)", smtRat(c), n))
	}
	if len(in) > 0 {
		for j := range a.basis[0] {
			s := rat(0)
			for v, c := range in {
				s.Add(s, new(big.Rat).Mul(c, a.basis[v][j]))
			}
			n := fmt.Sprintf("s%d", j)
			box(n, new(big.Rat).Neg(a.samples), a.samples)
			terms = append(terms, fmt.Sprintf("(* %s %s)", smtRat(s), n))
		}
	}
	fmt.Fprintf(b, "(define-fun form () Real (+ %s %s 0.0))\n(assert (or (> form %s) (< form %s)))\n(check-sat)\n(pop 1)\n",
		smtRat(f.k), strings.Join(terms, " "), smtRat(hi), smtRat(lo))
	l.n++
}

// run returns the answers, in order.
func (l *lraSolver) run(timeout time.Duration) []string {
	res := make([]string, l.n)
	var wg sync.WaitGroup
	for i := range l.buf {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f, err := os.CreateTemp("", "lra*.smt2")
			if err != nil {
				return
			}
			defer os.Remove(f.Name())
			f.WriteString("(set-logic QF_LRA)\n" + l.buf[i].String())
			f.Close()
			out, _ := exec.Command("z3-new", fmt.Sprintf("-T:%d", int(timeout.Seconds())), f.Name()).Output()
			for k, s := range strings.Fields(string(out)) {
				if j := k*len(l.buf) + i; j < len(res) {
					res[j] = s
				}
			}
		}(i)
	}
	wg.Wait()
	return res
}

// dctBasis is the orthonormal 8x8 transform: basis[8v+u][8y+x], to 2^-100.
func dctBasis() [][]*big.Rat {
	const prec = 300
	fl := func(v float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(v) }
	// cos(pi/4), cos(pi/8), cos(pi/16)
	c := fl(0)
	for i := 0; i < 3; i++ {
		c = new(big.Float).SetPrec(prec).Add(c, fl(1))
		c = c.Quo(c, fl(2))
		c = new(big.Float).SetPrec(prec).Sqrt(c)
	}
	cos := make([]*big.Float, 128)
	cos[0], cos[1] = fl(1), c
	for k := 2; k < len(cos); k++ {
		p := new(big.Float).SetPrec(prec).Mul(c, cos[k-1])
		p.Mul(p, fl(2))
		cos[k] = p.Sub(p, cos[k-2])
	}
	half := fl(0.5)
	root := new(big.Float).SetPrec(prec).Sqrt(fl(0.125))
	var m [8][8]*big.Float
	for u := 0; u < 8; u++ {
		for x := 0; x < 8; x++ {
			s := half
			if u == 0 {
				s = root
			}
			m[u][x] = new(big.Float).SetPrec(prec).Mul(s, cos[(2*x+1)*u])
		}
	}
	basis := make([][]*big.Rat, 64)
	for i := range basis {
		basis[i] = make([]*big.Rat, 64)
		for j := range basis[i] {
			r, _ := new(big.Float).SetPrec(prec).Mul(m[i/8][j/8], m[i%8][j%8]).Rat(nil)
			// a short rational close by
			sc := new(big.Int).Quo(new(big.Int).Lsh(r.Num(), 100), r.Denom())
			basis[i][j] = new(big.Rat).SetFrac(sc, new(big.Int).Lsh(big.NewInt(1), 100))
		}
	}
	return basis
}

// inverseDCT proves that out is the inverse transform of in, within milli/1000 for inputs in lo..hi; when samples > 0 only
// for inputs whose exact transform lies in -samples..samples.
func (x *Exec) inverseDCT(st *State, label string, in, out []*Term, lo, hi, samples, milli int64) {
	a := &affine{x: x, st: st, byTerm: map[*Term]int{}, memo: map[*Term]*affForm{}, checked: map[*Term]bool{}, z3: &lraSolver{}}
	for i, t := range in {
		if t.op != OVar && t.op != OUF {
			panic(unsupported("affine: input %d is not a variable", i))
		}
		x.prove(st, x.c.And(x.c.Sle(x.c.Const(uint64(lo), t.w), t), x.c.Sle(t, x.c.Const(uint64(hi), t.w))), label+": range of the inputs", "")
		a.byTerm[t] = i
		a.vars = append(a.vars, affVar{lo: rat(lo), hi: rat(hi), t: t})
	}
	a.basis = dctBasis()
	if samples > 0 {
		a.samples = rat(samples)
	}
	type goal struct {
		label string
		form  *affForm
		ok    bool
		worst *big.Rat
	}
	var goals []goal
	ask := func(label string, f *affForm, lo, hi *big.Rat) bool {
		l, h := a.bounds(f)
		w := new(big.Rat).Abs(l)
		if w.Cmp(h) < 0 {
			w = h
		}
		goals = append(goals, goal{label, f, l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0, w})
		a.z3.ask(a, f, lo, hi)
		return goals[len(goals)-1].ok
	}
	a.overflow = func(f *affForm, w int) bool {
		return ask(label+": no overflow", f, new(big.Rat).Sub(rat(1), pow2(w-1)), new(big.Rat).Sub(pow2(w-1), rat(2))) // one spare for the rounded basis
	}
	bound := new(big.Rat).Sub(big.NewRat(milli, 1000), pow2(-30)) // the slack covers the 2^-100 of the basis
	for j, t := range out {
		f := a.eval(t)
		if f == nil {
			break
		}
		d := f.clone()
		for i := range in {
			d.addScaled(&affForm{k: rat(0), cf: map[int]*big.Rat{i: rat(1)}}, new(big.Rat).Neg(a.basis[i][j]))
		}
		ask(label+": accuracy", d, new(big.Rat).Neg(bound), bound)
	}
	if a.err != "" {
		x.affineFailed(label+": accuracy", "the affine back end cannot follow the code: "+a.err, nil)
		return
	}
	t0 := time.Now()
	ans := a.z3.run(300 * time.Second)
	x.stats.add("z3-new (QF_LRA)", time.Since(t0), true)
	worst := map[string]*big.Rat{}
	for i, g := range goals {
		if w := worst[g.label]; w == nil || w.Cmp(g.worst) < 0 {
			worst[g.label] = g.worst
		}
		if g.ok && i < len(ans) && ans[i] == "unsat" {
			o := x.oblig(g.label)
			o.N++
			o.Engines["z3-new (QF_LRA)"]++
			continue
		}
		if g.ok {
			x.affineFailed(g.label, "no solver decided it", nil)
			continue
		}
		w, _ := g.worst.Float64()
		x.affineFailed(g.label, fmt.Sprintf("refuted: the form reaches %.6g", w), a.vertex(g.form))
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		for l, w := range worst {
			v, _ := w.Float64()
			fmt.Fprintf(os.Stderr, "affine %s: worst %.6g\n", l, v)
		}
	}
}

// vertex is the input where the form is largest.
func (a *affine) vertex(f *affForm) *Model {
	m := &Model{Vars: map[string]uint64{}, UFs: map[string][][]uint64{}, Bits: map[string]map[string][]uint64{}, Errs: map[string]string{}}
	put := func(i int, v int64) {
		t := a.vars[i].t
		if t.op == OVar {
			m.Vars[t.name] = uint64(v) & mask(t.w)
			return
		}
		var e []uint64
		for _, b := range t.args {
			e = append(e, b.k)
		}
		m.UFs[t.name] = append(m.UFs[t.name], append(e, uint64(v)&mask(t.w)))
	}
	n := len(a.byTerm)
	if a.samples == nil {
		for i := 0; i < n; i++ {
			r := a.vars[i].hi
			if c := f.cf[i]; c != nil && c.Sign() < 0 {
				r = a.vars[i].lo
			}
			put(i, r.Num().Int64())
		}
		return m
	}
	var sum [64]float64
	b, _ := a.samples.Float64()
	for j := range a.basis[0] {
		s := rat(0)
		for i := 0; i < n; i++ {
			if c := f.cf[i]; c != nil {
				s.Add(s, new(big.Rat).Mul(c, a.basis[i][j]))
			}
		}
		v := b - 1.5
		if s.Sign() < 0 {
			v = -v
		}
		for i := 0; i < n; i++ {
			e, _ := a.basis[i][j].Float64()
			sum[i] += e * v
		}
	}
	for i := 0; i < n; i++ {
		v := int64(sum[i])
		lo, hi := a.vars[i].lo.Num().Int64(), a.vars[i].hi.Num().Int64()
		put(i, max(lo, min(hi, v)))
	}
	return m
}

func (x *Exec) oblig(label string) *Obl {
	o := x.oblIdx[label]
	if o == nil {
		o = &Obl{Label: label, Engines: map[string]int{}}
		x.oblIdx[label] = o
		x.obls = append(x.obls, o)
	}
	return o
}

func (x *Exec) affineFailed(label, reason string, m *Model) {
	o := x.oblig(label)
	if !o.Failed {
		x.nfail++
		o.Failed = true
		o.Reason = reason
		o.Model = m
	}
}
