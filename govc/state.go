package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type pathNode struct {
	t      *Term
	parent *pathNode
	depth  int
}

type State struct {
	x      *Exec
	path   *pathNode
	known  map[*Term]bool
	bounds map[*Term][2]uint64
	heap   map[int]Value // overlay over x.base
	frozen map[int]bool
	spawn  []Value
	steps  int
	trace  []string // branch decisions, for reports
}

func (s *State) clone() *State {
	n := &State{x: s.x, path: s.path, steps: s.steps}
	n.known = make(map[*Term]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	n.bounds = make(map[*Term][2]uint64, len(s.bounds))
	for k, v := range s.bounds {
		n.bounds[k] = v
	}
	n.heap = make(map[int]Value, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	if s.frozen != nil {
		n.frozen = make(map[int]bool, len(s.frozen))
		for k, v := range s.frozen {
			n.frozen[k] = v
		}
	}
	n.spawn = append([]Value(nil), s.spawn...)
	return n
}

func (s *State) literals() []*Term {
	if s.path == nil {
		return nil
	}
	r := make([]*Term, s.path.depth)
	for p := s.path; p != nil; p = p.parent {
		r[p.depth-1] = p.t
	}
	return r
}

// assume adds a literal to the path. It returns false when the path becomes trivially infeasible.
func (s *State) assume(t *Term) bool {
	c := s.x.c
	t = s.simp(t)
	if t == c.tt {
		return true
	}
	if t == c.ff {
		return false
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	d := 1
	if s.path != nil {
		d = s.path.depth + 1
	}
	s.path = &pathNode{t, s.path, d}
	s.learn(t, true)
	return true
}

// push adds a literal without simplifying it.
func (s *State) push(t *Term) {
	if t == s.x.c.tt {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.push(a)
		}
		return
	}
	d := 1
	if s.path != nil {
		d = s.path.depth + 1
	}
	s.path = &pathNode{t, s.path, d}
	s.learn(t, true)
}

func (s *State) learn(t *Term, v bool) {
	c := s.x.c
	if t.op == ONot {
		s.learn(t.args[0], !v)
		return
	}
	if v && t.op == OAnd || !v && t.op == OOr {
		for _, a := range t.args {
			s.learn(a, v)
		}
	}
	s.known[t] = v
	switch t.op {
	case OEq:
		if v && t.args[1].op == OConst && t.args[0].w > 0 {
			s.bound(t.args[0], t.args[1].k, t.args[1].k)
		}
		if !v && t.args[1].op == OConst && t.args[0].w > 0 {
			lo, hi := s.rng(t.args[0])
			if t.args[1].k == lo {
				s.bound(t.args[0], lo+1, hi)
			} else if t.args[1].k == hi {
				s.bound(t.args[0], lo, hi-1)
			}
		}
	case OUlt:
		a, b := t.args[0], t.args[1]
		if b.op == OConst {
			if v {
				s.bound(a, 0, b.k-1)
			} else {
				s.bound(a, b.k, mask(a.w))
			}
		}
		if a.op == OConst {
			if v {
				s.bound(b, a.k+1, mask(b.w))
			} else {
				s.bound(b, 0, a.k)
			}
		}
	case OSlt:
		// signed bounds are usable when they pin the sign
		a, b := t.args[0], t.args[1]
		hb := uint64(1) << uint(a.w-1)
		if b.op == OConst && b.k < hb {
			if v {
				if lo, hi := s.rng(a); hi < hb {
					_ = lo
					s.bound(a, 0, b.k-1)
				}
			} else {
				s.bound(a, b.k, hb-1) // a >= b >= 0
			}
		}
	}
	_ = c
}

func (s *State) rng(t *Term) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	if b, ok := s.bounds[t]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
	}
	switch t.op {
	case OZExt:
		l, h := s.rng(t.args[0])
		lo, hi = max(lo, l), min(hi, h)
	case OLin:
		// path-sensitive range of a linear form without wraparound (positive coefficients)
		l, h := t.k, t.k
		ok := true
		for i, a := range t.args {
			al, ah := s.rng(a)
			cf := t.coefs[i]
			if cf > 1<<32 || ah > 1<<30 {
				ok = false
				break
			}
			l += al * cf
			h += ah * cf
		}
		if ok && h <= mask(t.w) && t.k < 1<<62 {
			lo, hi = max(lo, l), min(hi, h)
		} else if len(t.args) == 1 && t.coefs[0] == 1 {
			// x + k with k negative: ok when x >= -k
			al, ah := s.rng(t.args[0])
			nk := -t.k & mask(t.w)
			if al >= nk {
				lo, hi = max(lo, al-nk), min(hi, ah-nk)
			}
		}
	}
	return lo, hi
}

func (s *State) bound(t *Term, lo, hi uint64) {
	b, ok := s.bounds[t]
	if !ok {
		b = [2]uint64{t.lo, t.hi}
	}
	b[0], b[1] = max(b[0], lo), min(b[1], hi)
	s.bounds[t] = b
	if t.op == OZExt {
		if b[1] <= mask(t.args[0].w) {
			s.bound(t.args[0], b[0], b[1])
		}
	}
	if t.op == OLin && len(t.args) == 1 && t.coefs[0] == 1 && t.k > 0 && t.k <= mask(t.w)>>1 {
		// x + k in [lo,hi], no wrap assumed only if x's range excludes it
		x := t.args[0]
		if x.hi <= mask(t.w)-t.k && b[0] >= t.k {
			s.bound(x, b[0]-t.k, b[1]-t.k)
		}
	}
}

// simp simplifies a boolean under the path's literals.
func (s *State) simp(t *Term) *Term {
	return s.simpD(t, 4)
}

func (s *State) simpD(t *Term, d int) *Term {
	c := s.x.c
	if t.op == OConst {
		return t
	}
	if v, ok := s.known[t]; ok {
		return c.Bool(v)
	}
	if d == 0 {
		return t
	}
	switch t.op {
	case ONot:
		return c.Not(s.simpD(t.args[0], d))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = s.simpD(a, d-1)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		return c.nary(t.op, as)
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			x, y := s.simpD(a, d-1), s.simpD(b, d-1)
			if x != a || y != b {
				return c.Eq(x, y)
			}
			return t
		}
		al, ah := s.rng(a)
		bl, bh := s.rng(b)
		if ah < bl || bh < al {
			return c.ff
		}
		if al == ah && bl == bh && al == bl {
			return c.tt
		}
	case OUlt:
		al, ah := s.rng(t.args[0])
		bl, bh := s.rng(t.args[1])
		if ah < bl {
			return c.tt
		}
		if al >= bh {
			return c.ff
		}
	case OSlt:
		al, ah := s.rng(t.args[0])
		bl, bh := s.rng(t.args[1])
		hb := uint64(1) << uint(t.args[0].w-1)
		if ah < hb && bh < hb {
			if ah < bl {
				return c.tt
			}
			if al >= bh {
				return c.ff
			}
		}
		if al >= hb && bh < hb {
			return c.tt
		}
		if ah < hb && bl >= hb {
			return c.ff
		}
	}
	return t
}

// simpVal simplifies the conditions of an ite chain under the path.
func (s *State) simpVal(t *Term) *Term {
	for t.op == OIte {
		cd := s.simp(t.args[0])
		if cd == s.x.c.tt {
			t = t.args[1]
		} else if cd == s.x.c.ff {
			t = t.args[2]
		} else {
			break
		}
	}
	if t.op != OConst && t.w > 0 {
		if lo, hi := s.rng(t); lo == hi {
			return s.x.c.Const(lo, t.w)
		}
	}
	return t
}

// ---- heap ----

func (s *State) get(obj int) Value {
	if v, ok := s.heap[obj]; ok {
		return v
	}
	if v, ok := s.x.base[obj]; ok {
		return v
	}
	panic(unsupported("no object %d", obj))
}

func (s *State) set(obj int, v Value) { s.heap[obj] = v }

func (s *State) alloc(v Value) int {
	s.x.nobj++
	s.heap[s.x.nobj] = v
	return s.x.nobj
}

func (s *State) load(p Ptr, t types.Type) Value {
	if p.obj == 0 {
		panic(unsupported("load through nil"))
	}
	v := s.get(p.obj)
	return s.loadIn(v, p.path, t)
}

func (s *State) loadIn(v Value, path []PE, t types.Type) Value {
	c := s.x.c
	for i, pe := range path {
		switch vv := v.(type) {
		case *StructV:
			v = vv.f[pe.field]
		case *Vec:
			if pe.off != nil {
				if pe.off.op != OConst {
					panic(unsupported("symbolic index into array of references"))
				}
				v = vv.e[pe.off.k]
			} else {
				v = vv.e[pe.field]
			}
		case *Arr:
			off := c.Int(0)
			for _, q := range path[i:] {
				off = c.Add(off, q.off)
			}
			if t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					_, n, _ := flat(t)
					return &Arr{n: n, node: c.view(vv.node, off, n)}
				}
			}
			return vv.node.sel(off)
		default:
			panic(unsupported("load path through %T", v))
		}
	}
	return v
}

func (c *Ctx) view(n *ANode, off *Term, cnt int) *ANode {
	if off.op == OConst && off.k == 0 {
		return n
	}
	if cnt <= 512 {
		m := map[uint64]*Term{}
		for i := 0; i < cnt; i++ {
			m[uint64(i)] = n.sel(c.Add(off, c.Int(int64(i))))
		}
		var z *Term
		if n.w == 0 {
			z = c.ff
		} else {
			z = c.Const(0, n.w)
		}
		return &ANode{c: c, kind: AOver, w: n.w, base: c.arrConst(z), cells: m}
	}
	return &ANode{c: c, kind: ACopy, w: n.w, base: n, off: c.Int(0), src: n, soff: off, n: c.Int(int64(cnt))}
}

func (s *State) store(p Ptr, val Value) {
	if p.obj == 0 {
		panic(unsupported("store through nil"))
	}
	if s.x.rec != nil {
		s.x.rec.write(p)
	}
	s.set(p.obj, s.storeIn(s.get(p.obj), p.path, val))
}

func (s *State) storeIn(v Value, path []PE, val Value) Value {
	c := s.x.c
	if len(path) == 0 {
		return val
	}
	pe := path[0]
	switch vv := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), vv.f...)}
		n.f[pe.field] = s.storeIn(vv.f[pe.field], path[1:], val)
		return n
	case *Vec:
		i := pe.field
		if pe.off != nil {
			if pe.off.op != OConst {
				panic(unsupported("symbolic index into array of references"))
			}
			i = int(pe.off.k)
		}
		n := &Vec{e: append([]Value(nil), vv.e...)}
		n.e[i] = s.storeIn(vv.e[i], path[1:], val)
		return n
	case *Arr:
		off := c.Int(0)
		for _, q := range path {
			off = c.Add(off, q.off)
		}
		if av, ok := val.(*Arr); ok {
			return &Arr{n: vv.n, node: vv.node.copyFrom(off, av.node, c.Int(0), c.Int(int64(av.n)))}
		}
		return &Arr{n: vv.n, node: vv.node.store(off, val.(*Term))}
	}
	panic(unsupported("store path through %T", v))
}

func extend(p Ptr, pe PE) Ptr {
	return Ptr{p.obj, append(append([]PE(nil), p.path...), pe)}
}

func samePtr(a, b Ptr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].off != b.path[i].off {
			return false
		}
	}
	return true
}

// ---- merging ----

type cannotMerge struct{ why string }

// mergeVal merges two values under cond; panics cannotMerge when their shapes differ.
func (x *Exec) mergeVal(cond *Term, a, b Value) Value {
	c := x.c
	switch av := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
		return nil // value dead on one side
	case *Term:
		bv, ok := b.(*Term)
		if !ok {
			if b == nil {
				return nil
			}
			panic(cannotMerge{"term/other"})
		}
		if av.w != bv.w {
			panic(cannotMerge{"widths"})
		}
		if av == bv {
			return av
		}
		x.mergeCost++
		return c.Ite(cond, av, bv)
	case Ptr:
		bv, ok := b.(Ptr)
		if b == nil {
			return nil
		}
		if !ok || av.obj != bv.obj || len(av.path) != len(bv.path) {
			panic(cannotMerge{"pointers"})
		}
		if samePtr(av, bv) {
			return av
		}
		p := Ptr{av.obj, make([]PE, len(av.path))}
		for i := range av.path {
			if av.path[i].field != bv.path[i].field || (av.path[i].off == nil) != (bv.path[i].off == nil) {
				panic(cannotMerge{"pointer paths"})
			}
			p.path[i] = av.path[i]
			if av.path[i].off != nil {
				p.path[i].off = c.Ite(cond, av.path[i].off, bv.path[i].off)
			}
		}
		return p
	case Slice:
		bv, ok := b.(Slice)
		if b == nil {
			return nil
		}
		if !ok || !samePtr(av.arr, bv.arr) {
			panic(cannotMerge{"slices"})
		}
		return Slice{av.arr, c.Ite(cond, av.off, bv.off), c.Ite(cond, av.len, bv.len), c.Ite(cond, av.cap, bv.cap)}
	case Iface:
		bv, ok := b.(Iface)
		if b == nil {
			return nil
		}
		if !ok || (av.typ == nil) != (bv.typ == nil) || av.typ != nil && !types.Identical(av.typ, bv.typ) {
			panic(cannotMerge{"interfaces"})
		}
		if av.typ == nil {
			return av
		}
		return Iface{av.typ, x.mergeVal(cond, av.v, bv.v)}
	case Func:
		bv, ok := b.(Func)
		if b == nil {
			return nil
		}
		if !ok || av.fn != bv.fn || len(av.binds) != len(bv.binds) {
			panic(cannotMerge{"funcs"})
		}
		f := Func{fn: av.fn, hook: av.hook}
		for i := range av.binds {
			f.binds = append(f.binds, x.mergeVal(cond, av.binds[i], bv.binds[i]))
		}
		return f
	case *StructV:
		bv, ok := b.(*StructV)
		if b == nil {
			return nil
		}
		if av == bv {
			return av
		}
		if !ok || len(av.f) != len(bv.f) {
			panic(cannotMerge{"structs"})
		}
		n := &StructV{f: make([]Value, len(av.f))}
		for i := range av.f {
			n.f[i] = x.mergeVal(cond, av.f[i], bv.f[i])
		}
		return n
	case *Arr:
		bv, ok := b.(*Arr)
		if b == nil {
			return nil
		}
		if av == bv {
			return av
		}
		if !ok || av.n != bv.n {
			panic(cannotMerge{"arrays"})
		}
		if av.node == bv.node {
			return av
		}
		return &Arr{n: av.n, node: c.mergeNode(cond, av.node, bv.node)}
	case *GSeq:
		if b == nil || a == b {
			return b
		}
		panic(cannotMerge{"sequences"})
	case *Vec:
		bv, ok := b.(*Vec)
		if b == nil {
			return nil
		}
		if av == bv {
			return av
		}
		if !ok || len(av.e) != len(bv.e) {
			panic(cannotMerge{"vecs"})
		}
		n := &Vec{e: make([]Value, len(av.e))}
		for i := range av.e {
			n.e[i] = x.mergeVal(cond, av.e[i], bv.e[i])
		}
		return n
	case Tuple:
		bv, ok := b.(Tuple)
		if b == nil {
			return nil
		}
		if !ok || len(av) != len(bv) {
			panic(cannotMerge{"tuples"})
		}
		n := make(Tuple, len(av))
		for i := range av {
			n[i] = x.mergeVal(cond, av[i], bv[i])
		}
		return n
	case StrV:
		if b == nil {
			return nil
		}
		if bv, ok := b.(StrV); ok && bv.s == av.s {
			return av
		}
		panic(cannotMerge{"strings"})
	case *BufV:
		bv, ok := b.(*BufV)
		if b == nil {
			return nil
		}
		if av == bv {
			return av
		}
		if !ok {
			panic(cannotMerge{"buf"})
		}
		return &BufV{node: c.mergeNode(cond, av.node, bv.node), off: c.Ite(cond, av.off, bv.off), n: c.Ite(cond, av.n, bv.n)}
	case *StreamV:
		bv, ok := b.(*StreamV)
		if b == nil {
			return nil
		}
		if av == bv {
			return av
		}
		if !ok || av.name != bv.name || av.len != bv.len || av.endErr != bv.endErr {
			panic(cannotMerge{"streams"})
		}
		if av.pos != bv.pos {
			if !x.mergeStr {
				panic(cannotMerge{"stream positions"})
			}
			n := *av
			n.pos = c.Ite(cond, av.pos, bv.pos)
			return &n
		}
		return av
	case *MapV:
		if bv, ok := b.(*MapV); ok && av == bv {
			return av
		}
		panic(cannotMerge{"maps"})
	case *ChanV:
		bv, ok := b.(*ChanV)
		if ok && av == bv {
			return av
		}
		if !ok {
			panic(cannotMerge{"chans"})
		}
		return &ChanV{x.mergeVal(cond, av.onSend, bv.onSend), x.mergeVal(cond, av.onRecv, bv.onRecv), x.mergeVal(cond, av.onClose, bv.onClose), c.Ite(cond, av.closed, bv.closed)}
	case Opaque:
		if bv, ok := b.(Opaque); ok && bv == av {
			return av
		}
		panic(cannotMerge{"opaque"})
	case *iterV:
		if bv, ok := b.(*iterV); ok && bv == av {
			return av
		}
	case FloatV:
		if bv, ok := b.(FloatV); ok && bv == av {
			return av
		}
	case *ssa.Builtin:
		return av
	}
	panic(cannotMerge{fmt.Sprintf("%T", a)})
}

// mergeStates tries to merge b into a, with extra value vectors (envs or results). Returns nil when not mergeable.
func (x *Exec) mergeStates(a, b *State, av, bv []Value, errIdx map[int]bool) (st *State, vals []Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(cannotMerge); ok {
				st, vals = nil, nil
				return
			}
			panic(r)
		}
	}()
	c := x.c
	// common prefix of the paths
	pa, pb := a.path, b.path
	var sa, sb []*Term
	depth := func(p *pathNode) int {
		if p == nil {
			return 0
		}
		return p.depth
	}
	for depth(pa) > depth(pb) {
		sa = append(sa, pa.t)
		pa = pa.parent
	}
	for depth(pb) > depth(pa) {
		sb = append(sb, pb.t)
		pb = pb.parent
	}
	for pa != pb {
		sa = append(sa, pa.t)
		sb = append(sb, pb.t)
		pa, pb = pa.parent, pb.parent
	}
	ca, cb := c.And(sa...), c.And(sb...)
	cond := ca
	// prefer the shorter selector
	if len(sb) < len(sa) {
		cond = c.Not(cb)
	}
	if len(sa) == 0 || len(sb) == 0 {
		return nil, nil
	}
	if errIdx != nil {
		for i := range errIdx {
			if av[i] != bv[i] {
				return nil, nil
			}
		}
	}
	if len(a.spawn) != len(b.spawn) {
		return nil, nil
	}
	n := &State{x: x, path: pa, known: map[*Term]bool{}, bounds: map[*Term][2]uint64{}, heap: make(map[int]Value, len(a.heap)), steps: max(a.steps, b.steps), spawn: a.spawn}
	for o, v := range a.heap {
		w, ok := b.heap[o]
		if !ok {
			if bw, ok2 := x.base[o]; ok2 {
				w = bw
			} else {
				n.heap[o] = v
				continue
			}
		}
		n.heap[o] = x.mergeVal(cond, v, w)
	}
	for o, w := range b.heap {
		if _, ok := a.heap[o]; !ok {
			if bv, ok2 := x.base[o]; ok2 {
				n.heap[o] = x.mergeVal(cond, bv, w)
			} else {
				n.heap[o] = w
			}
		}
	}
	if a.frozen != nil || b.frozen != nil {
		n.frozen = map[int]bool{}
		for k := range a.frozen {
			n.frozen[k] = true
		}
		for k := range b.frozen {
			n.frozen[k] = true
		}
	}
	vals = make([]Value, len(av))
	for i := range av {
		if av[i] == nil || bv[i] == nil {
			continue
		}
		vals[i] = x.mergeVal(cond, av[i], bv[i])
	}
	// the path must imply what is known: add the disjunction unsimplified before taking over common knowledge
	d := c.Or(ca, cb)
	if d == c.ff {
		return nil, nil
	}
	n.push(d)
	for k, v := range a.known {
		if w, ok := b.known[k]; ok && w == v {
			n.known[k] = v
		}
	}
	for k, v := range a.bounds {
		if w, ok := b.bounds[k]; ok {
			n.bounds[k] = [2]uint64{min(v[0], w[0]), max(v[1], w[1])}
		}
	}
	return n, vals
}
