package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// LoopSpec is an invariant function attached to a loop.
type LoopSpec struct {
	fn   *ssa.Function // invariant function
	of   *ssa.Function
	n    int
	name string

	root   *ssa.Function // of a closure
	target string
}

func (x *Exec) loopSpec(fn *ssa.Function, n int) *LoopSpec {
	for _, ls := range x.loopInvs[fn] {
		if ls.n == n {
			return ls
		}
	}
	return nil
}

// invArgs binds the invariant's parameters by name to the variables of the frame.
func (x *Exec) invArgs(st *State, fr *Frame, hdr *ssa.BasicBlock, ls *LoopSpec) []Value {
	var args []Value
	for _, p := range ls.fn.Params {
		v, ok := x.lookupVar(st, fr, hdr, p.Name(), p.Type())
		if !ok {
			v, ok = x.guessVar(st, fr, hdr, ls, p)
		}
		for f := fr; !ok && f.caller != nil && f.at != nil; f = f.caller {
			v, ok = x.lookupVar(st, f.caller, f.at, p.Name(), p.Type())
		}
		if !ok {
			panic(unsupported("invariant of loop %d of %s: no variable %s", ls.n, fr.fn, p.Name()))
		}
		args = append(args, v)
	}
	return args
}

// present: the value is known in the frame.
func (x *Exec) present(fr *Frame, v ssa.Value) bool {
	k, ok := fr.fi.num[v]
	return !ok || fr.env[k] != nil
}

// guessVar binds a parameter of an invariant whose variable has another name in the current source: the index of a
// range, or the only variable of its type that the loop changes and no other parameter names. (An invariant is a hint: it is
// proved like any other obligation, whatever its parameters are bound to.)
func (x *Exec) guessVar(st *State, fr *Frame, hdr *ssa.BasicBlock, ls *LoopSpec, p *ssa.Parameter) (Value, bool) {
	named := map[string]bool{}
	for _, q := range ls.fn.Params {
		named[q.Name()] = true
	}
	var found []*ssa.Phi
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if types.Identical(ph.Type(), p.Type()) && !named[ph.Comment] {
			found = append(found, ph)
		}
	}
	if len(found) == 1 {
		v := fr.env[fr.fi.num[found[0]]]
		if t, ok := v.(*Term); ok {
			// a range counts the element last visited, other loops the next one
			if p.Name() == "rangeindex" && found[0].Comment != "rangeindex" {
				return x.c.Sub(t, x.c.Const(1, t.w)), true
			}
			if p.Name() != "rangeindex" && found[0].Comment == "rangeindex" {
				return x.c.Add(t, x.c.Const(1, t.w)), true
			}
		}
		return v, v != nil
	}
	var cells []Value
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && !named[al.Comment] && types.Identical(al.Type().(*types.Pointer).Elem(), p.Type()) {
				if q, ok := fr.env[fr.fi.num[al]].(Ptr); ok {
					cells = append(cells, st.load(q, p.Type()))
				}
			}
		}
	}
	if len(found) == 0 && len(cells) == 1 {
		return cells[0], true
	}
	return nil, false
}

func (x *Exec) lookupVar(st *State, fr *Frame, hdr *ssa.BasicBlock, name string, t types.Type) (Value, bool) {
	deref := func(v Value, vt types.Type) (Value, bool) {
		if types.Identical(vt, t) {
			return v, true
		}
		if pt, ok := vt.(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
			p, ok := v.(Ptr)
			if !ok || p.obj == 0 {
				return nil, false
			}
			return st.load(p, t), true
		}
		return nil, false
	}
	// a phi at the header
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Comment == name {
			if v, ok := deref(fr.env[fr.fi.num[ph]], ph.Type()); ok {
				return v, true
			}
		}
	}
	// phis of dominating blocks (closest first)
	for b := hdr.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == name && fr.env[fr.fi.num[ph]] != nil {
				if v, ok := deref(fr.env[fr.fi.num[ph]], ph.Type()); ok {
					return v, true
				}
			}
		}
	}
	for _, l := range fr.fn.Blocks {
		for _, in := range l.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && al.Comment == name {
				v := fr.env[fr.fi.num[al]]
				if v == nil {
					continue
				}
				if r, ok := deref(v, al.Type()); ok {
					return r, true
				}
			}
		}
	}
	for i, f := range fr.fn.FreeVars {
		_ = i
		if f.Name() == name {
			if r, ok := deref(fr.env[fr.fi.num[f]], f.Type()); ok {
				return r, true
			}
		}
	}
	// the last debug reference whose block dominates the header
	var best *ssa.DebugRef
	for _, d := range fr.fi.debug[name] {
		if d.IsAddr {
			continue
		}
		b := d.Block()
		if b != hdr && b.Dominates(hdr) && x.present(fr, d.X) {
			if best == nil || best.Block().Dominates(b) {
				best = d
			}
		}
	}
	if best != nil {
		if _, isParam := best.X.(*ssa.Parameter); !isParam {
			v := x.eval(st, fr, best.X)
			if v != nil {
				if r, ok := deref(v, best.X.Type()); ok {
					return r, true
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			if r, ok := deref(fr.env[fr.fi.num[p]], p.Type()); ok {
				return r, true
			}
		}
	}
	return nil, false
}

func (x *Exec) runInv(st *State, fr *Frame, hdr *ssa.BasicBlock, ls *LoopSpec, mode int) (*State, []*Term) {
	args := x.invArgs(st, fr, hdr, ls)
	om, ow, od := x.invMode, x.invWhere, x.decNew
	x.invMode, x.invWhere, x.decNew = mode, ls.name, nil
	outs := x.call(st, ls.fn, args, nil, true)
	dec := x.decNew
	x.invMode, x.invWhere, x.decNew = om, ow, od
	if len(outs) == 0 {
		return nil, nil
	}
	if len(outs) != 1 {
		panic(unsupported("invariant with %d outcomes", len(outs)))
	}
	return outs[0].st, dec
}

func (x *Exec) havocVal(cur Value, name string, entryObjs int) Value {
	c := x.c
	switch v := cur.(type) {
	case *Term:
		return c.Fresh(name, v.w)
	case *Arr:
		return &Arr{n: v.n, node: c.arrUF(c.FreshName(name), v.node.w)}
	case *BufV:
		nm := c.FreshName(name)
		return &BufV{node: c.arrUF(nm, 8), off: c.Int(0), n: c.Var(nm+".n", 64)}
	case *StreamV:
		n := *v
		n.pos = c.Fresh(v.name+".pos", 64)
		return &n
	case *StructV:
		n := &StructV{f: make([]Value, len(v.f))}
		for i := range v.f {
			n.f[i] = x.havocVal(v.f[i], fmt.Sprintf("%s.%d", name, i), entryObjs)
		}
		return n
	case *Vec:
		n := &Vec{e: make([]Value, len(v.e))}
		for i := range v.e {
			n.e[i] = x.havocVal(v.e[i], fmt.Sprintf("%s[%d]", name, i), entryObjs)
		}
		return n
	case *ChanV:
		n := *v
		n.closed = c.Fresh(name+".closed", 0)
		return &n
	case Slice:
		// same backing array, any window of it; other backing arrays are handled by the caller
		return Slice{v.arr, c.Fresh(name+".off", 64), c.Fresh(name+".len", 64), c.Fresh(name+".cap", 64)}
	case Iface, Func, StrV, FloatV, Opaque, *MapV, nil:
		return Opaque{"changed in a loop: " + name}
	case Ptr:
		return Opaque{"changed in a loop: " + name}
	}
	return Opaque{"changed in a loop: " + name}
}

// sameShape: the reference parts of two values agree.
func sameRefs(a, b Value) bool {
	switch av := a.(type) {
	case Ptr:
		bv, ok := b.(Ptr)
		return ok && samePtr(av, bv)
	case Slice:
		bv, ok := b.(Slice)
		return ok && samePtr(av.arr, bv.arr)
	case Func:
		bv, ok := b.(Func)
		if !ok || av.fn != bv.fn || len(av.binds) != len(bv.binds) {
			return false
		}
		for i := range av.binds {
			if !sameRefs(av.binds[i], bv.binds[i]) {
				return false
			}
		}
		return true
	case Iface:
		bv, ok := b.(Iface)
		return ok && (av.typ == nil) == (bv.typ == nil) && (av.typ == nil || types.Identical(av.typ, bv.typ) && sameRefs(av.v, bv.v))
	case StrV:
		bv, ok := b.(StrV)
		return ok && av == bv
	case *Vec:
		bv, ok := b.(*Vec)
		if !ok || len(av.e) != len(bv.e) {
			return false
		}
		for i := range av.e {
			if !sameRefs(av.e[i], bv.e[i]) {
				return false
			}
		}
		return true
	case *MapV:
		return a == b
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok {
			return false
		}
		for i := range av.f {
			if !sameRefs(av.f[i], bv.f[i]) {
				return false
			}
		}
		return true
	case Opaque:
		bv, ok := b.(Opaque)
		return ok && av == bv
	}
	return true
}

func (x *Exec) loop(st *State, fr *Frame, hdr *ssa.BasicBlock, ls *LoopSpec, stops stopset) []arrival {
	c := x.c
	var outs []arrival
	// A loop whose condition is a flag of its own: arrivals at the header with the flag unset leave the loop as they
	// are, the invariant is about those that go on.
	flag, stay := x.loopFlag(fr, hdr, ls)
	on := func(st *State, fr *Frame) (*State, *Frame) {
		if flag < 0 {
			return st, fr
		}
		k := fr.fi.num[hdr.Instrs[flag].(*ssa.Phi)]
		v := st.simp(fr.env[k].(*Term))
		if !stay {
			v = c.Not(v)
		}
		goes, leaves := v == c.tt, v == c.ff
		if !goes && !leaves {
			goes, leaves = x.feasible(st, v)
		}
		if leaves {
			st2, fr2 := st.clone(), fr.clone()
			if st2.assume(c.Not(v)) {
				fr2.env[k] = c.Bool(!stay)
				outs = append(outs, x.run(st2, fr2, hdr, fr.fi.nphi[hdr], stops)...)
			}
		}
		if !goes || !st.assume(v) {
			return nil, nil
		}
		fr = fr.clone()
		fr.env[k] = c.Bool(stay)
		return st, fr
	}
	if st, fr = on(st, fr); st == nil {
		return outs
	}
	// 1. the invariant holds on entry
	entry := st.clone()
	oiter := x.iter
	defer func() { x.iter = oiter }()
	x.iter = c.Int(0)
	if s, _ := x.runInv(entry, fr, hdr, ls, 1); s == nil {
		return outs
	}
	// 2. discover what the body changes
	maxObj := x.nobj
	writes := map[string]Ptr{}
	inner := append(append(stopset{}, stops...), hdr)
	// discovery stays within the natural loop
	body := naturalLoop(hdr)
	within := append(stopset{}, inner...)
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && !within.has(s) {
				within = append(within, s)
			}
		}
	}
	phiChanged := map[int]bool{}
	phiRefs := map[int][]Value{}
	heapRefs := map[string][]Value{}
	frozenRef := map[string]bool{} // loop-carried references whose object has been handed over
	noteW := func(a *State, nv Value) {
		if s, ok := nv.(Slice); ok && s.arr.obj > maxObj && len(s.arr.path) == 0 {
			switch ar := a.get(s.arr.obj).(type) {
			case *Arr:
				x.refW[s.arr.obj] = ar.node.w
			case *Vec, *GSeq:
				x.refW[s.arr.obj] = -1
			}
		}
	}
	noteFrozen := func(a *State, key string, nv Value) bool {
		if o := refObj(nv); o > maxObj && a.frozen[o] && !frozenRef[key] {
			frozenRef[key] = true
			return true
		}
		return false
	}
	freeze := func(st *State, key string, v Value) {
		if o := refObj(v); o != 0 && frozenRef[key] {
			f := map[int]bool{o: true}
			for k := range st.frozen {
				f[k] = true
			}
			st.frozen = f
		}
	}
	handed := map[int]bool{} // objects that exist before the loop and are handed over in it
	var hst *State
	var hfr *Frame
	var iter *Term
	prepare := func() {
		hst, hfr = st.clone(), fr.clone()
		if len(handed) > 0 {
			f := map[int]bool{}
			for k := range st.frozen {
				f[k] = true
			}
			for k := range handed {
				f[k] = true
			}
			hst.frozen = f
		}
		iter = c.Fresh("iterations", 64)
		hst.assume(c.Ult(iter, c.Const(1<<48, 64)))
		x.iter = iter
		keys := make([]string, 0, len(writes))
		for k := range writes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			p := writes[k]
			// skip when an enclosing location is havocked already
			cur := hst.load(p, nil)
			hv := x.havocVal(cur, fmt.Sprintf("loop.%s", k), maxObj)
			hv = x.pickRefs(hst, cur, hv, heapRefs[k])
			freeze(hst, k, hv)
			x.sliceFacts(hst, hv)
			hst.set(p.obj, hst.storeIn(hst.get(p.obj), p.path, hv))
		}
		for i := 0; i < fr.fi.nphi[hdr]; i++ {
			ph := hdr.Instrs[i].(*ssa.Phi)
			k := fr.fi.num[ph]
			if phiChanged[i] && i != flag {
				if d, ok := stepOf(ph, hdr); ok {
					if e, ok := fr.env[k].(*Term); ok {
						// a counter: its value follows from the number of iterations
						n := iter
						if e.w < 64 {
							n = c.Extract(iter, e.w-1, 0)
						}
						hfr.env[k] = c.Add(e, c.MulK(n, uint64(d)))
						continue
					}
				}
				nm := ph.Comment
				if nm == "" {
					nm = ph.Name()
				}
				hv := x.havocVal(fr.env[k], nm, maxObj)
				hv = x.pickRefs(hst, fr.env[k], hv, phiRefs[i])
				freeze(hst, fmt.Sprint("phi", i), hv)
				x.sliceFacts(hst, hv)
				hfr.env[k] = hv
			}
		}
	}
	x.quiet++
	for round := 0; ; round++ {
		if round > 12 {
			x.quiet--
			panic(unsupported("modified set of loop %d of %s does not stabilise", ls.n, fr.fn))
		}
		prepare()
		s, _ := x.runInv(hst.clone(), hfr, hdr, ls, 2)
		changed := false
		if s != nil {
			r := &recorder{parent: x.rec, writes: map[string]Ptr{}, maxObj: maxObj}
			x.rec = r
			arrs := x.run(s, hfr.clone(), hdr, fr.fi.nphi[hdr], within)
			x.rec = r.parent
			for k, p := range r.writes {
				_ = k
				for _, q := range leafPaths(hst, p) {
					key := pathKey(q)
					if _, ok := writes[key]; !ok {
						writes[key] = q
						changed = true
					}
				}
			}
			for _, a := range arrs {
				if a.blk != hdr {
					continue
				}
				for o := range a.st.frozen {
					if o <= maxObj && !hst.frozen[o] {
						handed[o] = true
						changed = true
					}
				}
				for i := 0; i < fr.fi.nphi[hdr]; i++ {
					k := fr.fi.num[hdr.Instrs[i].(*ssa.Phi)]
					nv := a.fr.env[k]
					if !phiChanged[i] && !sameValue(nv, hfr.env[k]) {
						phiChanged[i] = true
						changed = true
					}
					if addRefs(nv, maxObj, phiRefs[i], hfr.env[k]) {
						phiRefs[i] = append(phiRefs[i], nv)
						noteW(a.st, nv)
						changed = true
					}
					if noteFrozen(a.st, fmt.Sprint("phi", i), nv) {
						changed = true
					}
				}
				for k, p := range writes {
					nv := a.st.load(p, nil)
					if addRefs(nv, maxObj, heapRefs[k], hst.load(p, nil)) {
						heapRefs[k] = append(heapRefs[k], nv)
						noteW(a.st, nv)
						changed = true
					}
					if noteFrozen(a.st, k, nv) {
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	x.quiet--
	if x.rec != nil {
		for _, p := range writes {
			x.rec.write(p)
		}
	}
	// 3. an arbitrary iteration
	prepare()
	s, dec0 := x.runInv(hst.clone(), hfr, hdr, ls, 2)
	if s == nil {
		return outs
	}
	nspawn, ndefer := len(s.spawn), len(hfr.defers)
	back := 0
	for _, a := range x.run(s, hfr.clone(), hdr, fr.fi.nphi[hdr], inner) {
		if a.blk != hdr {
			outs = append(outs, a)
			continue
		}
		back++
		if a.st, a.fr = on(a.st, a.fr); a.st == nil {
			continue
		}
		for i := 0; i < fr.fi.nphi[hdr]; i++ {
			k := fr.fi.num[hdr.Instrs[i].(*ssa.Phi)]
			x.checkRefs(a.fr.env[k], hfr.env[k], maxObj, ls)
		}
		for _, p := range writes {
			x.checkDeep(a.st.load(p, nil), hst.load(p, nil), maxObj, ls)
		}
		for o := range a.st.frozen {
			if o <= maxObj && !hst.frozen[o] {
				panic(unsupported("loop %s hands over an object that exists before it", ls.name))
			}
		}
		if len(a.st.spawn) != nspawn || len(a.fr.defers) != ndefer {
			panic(unsupported("loop %s starts goroutines or defers calls", ls.name))
		}
		x.iter = c.Add(iter, c.Int(1))
		s2, dec1 := x.runInv(a.st, a.fr, hdr, ls, 1)
		if s2 == nil {
			continue
		}
		if len(dec0) > 0 && len(dec0) == len(dec1) {
			// lexicographic decrease of unsigned measures
			lt := c.ff
			eq := c.tt
			for i := range dec0 {
				lt = c.Or(lt, c.And(eq, c.Ult(dec1[i], dec0[i])))
				eq = c.And(eq, c.Eq(dec1[i], dec0[i]))
			}
			x.prove(s2, lt, "termination "+ls.name+": the measure decreases", "loop")
		}
	}
	return outs
}

// loopFlag: the header only tests a boolean of the loop that its invariant does not name.
func (x *Exec) loopFlag(fr *Frame, hdr *ssa.BasicBlock, ls *LoopSpec) (int, bool) {
	t, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return -1, false
	}
	var cond ssa.Value = t.Cond
	stay := true
	for _, in := range hdr.Instrs[fr.fi.nphi[hdr] : len(hdr.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if in != cond || in.Op != token.NOT {
				return -1, false
			}
			cond, stay = in.X, false
		default:
			return -1, false
		}
	}
	body := naturalLoop(hdr)
	if body[hdr.Succs[0]] == body[hdr.Succs[1]] {
		return -1, false
	}
	if body[hdr.Succs[1]] {
		stay = !stay
	}
	for i := 0; i < fr.fi.nphi[hdr]; i++ {
		if ph := hdr.Instrs[i].(*ssa.Phi); ph == cond {
			for _, p := range ls.fn.Params {
				if p.Name() == ph.Comment {
					return -1, false
				}
			}
			return i, stay
		}
	}
	return -1, false
}

// stepOf: every iteration adds the same constant to the variable.
func stepOf(ph *ssa.Phi, hdr *ssa.BasicBlock) (int64, bool) {
	step, found := int64(0), false
	for i, p := range hdr.Preds {
		if !hdr.Dominates(p) {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return 0, false
		}
		k, ok := b.Y.(*ssa.Const)
		o := b.X
		if kx, isK := b.X.(*ssa.Const); !ok && isK && b.Op == token.ADD {
			k, ok, o = kx, true, b.Y
		}
		if !ok || o != ph || k.Value == nil {
			return 0, false
		}
		d, exact := constant.Int64Val(constant.ToInt(k.Value))
		if !exact {
			return 0, false
		}
		if b.Op == token.SUB {
			d = -d
		}
		if found && d != step {
			return 0, false
		}
		step, found = d, true
	}
	return step, found
}

// naturalLoop is the set of blocks dominated by the header that can reach it.
func naturalLoop(hdr *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{hdr: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if body[b] || !hdr.Dominates(b) {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range hdr.Preds {
		if hdr.Dominates(p) {
			up(p)
		}
	}
	return body
}

func sameValue(a, b Value) bool {
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		return ok && av == bv
	case Slice:
		bv, ok := b.(Slice)
		return ok && samePtr(av.arr, bv.arr) && av.off == bv.off && av.len == bv.len && av.cap == bv.cap
	case Ptr:
		bv, ok := b.(Ptr)
		return ok && samePtr(av, bv)
	case *StructV, *Arr, *Vec, *GSeq, *BufV, *StreamV, *ChanV, *MapV, *iterV:
		return a == b
	case Tuple:
		return false
	}
	return sameRefs(a, b)
}

// addRefs reports whether nv has a reference shape not yet among the known ones.
func addRefs(nv Value, maxObj int, known []Value, cur Value) bool {
	switch v := nv.(type) {
	case Ptr, Slice, Iface, Func:
		for _, k := range append([]Value{cur}, known...) {
			if sameRefs(k, v) {
				return false
			}
			if freshRef(k, maxObj) && freshRef(v, maxObj) {
				return false
			}
		}
		return true
	}
	return false
}

func refObj(v Value) int {
	switch t := v.(type) {
	case Ptr:
		return t.obj
	case Slice:
		return t.arr.obj
	}
	return 0
}

func freshRef(v Value, maxObj int) bool {
	switch t := v.(type) {
	case Ptr:
		return t.obj > maxObj && len(t.path) == 0
	case Slice:
		return t.arr.obj > maxObj && len(t.arr.path) == 0
	}
	return false
}

// pickRefs chooses the summary of a changed reference: unchanged, nil, or a fresh object.
func (x *Exec) pickRefs(st *State, cur, hv Value, refs []Value) Value {
	c := x.c
	switch cur.(type) {
	case Ptr, Slice, Iface, Func:
	default:
		return hv
	}
	if len(refs) == 0 {
		switch v := cur.(type) {
		case Slice:
			if v.arr.obj == 0 {
				return cur
			}
			return hv
		default:
			return cur
		}
	}
	// all references are objects created inside the loop (the entry value is another such object)
	fresh := true
	for _, r := range refs {
		if !freshRef(r, 0) {
			fresh = false
		}
	}
	if fresh {
		switch r := refs[0].(type) {
		case Ptr:
			if _, ok := cur.(Ptr); ok && cur.(Ptr).obj != 0 {
				return Ptr{obj: st.alloc(x.freshVal(st, st.get(cur.(Ptr).obj)))}
			}
		case Slice:
			if s, ok := cur.(Slice); ok && x.refW[r.arr.obj] < 0 {
				_ = s
				ln := c.Fresh("seq.len", 64)
				o := st.alloc(&GSeq{n: ln})
				x.maybeNil[o] = true
				return Slice{Ptr{obj: o}, c.Int(0), ln, ln}
			}
			if s, ok := cur.(Slice); ok && s.arr.obj == 0 {
				// nil or a fresh slice: a fresh slice that must not be compared with nil
				if w := x.refW[r.arr.obj]; w > 0 {
					o := st.alloc(&Arr{n: -1, node: c.arrUF(c.FreshName("fresh"), w)})
					ln := c.Fresh("fresh.len", 64)
					x.maybeNil[o] = true
					return Slice{Ptr{obj: o}, c.Int(0), ln, ln}
				}
			} else if ok {
				if a, ok := st.load(s.arr, nil).(*Arr); ok {
					o := st.alloc(&Arr{n: -1, node: c.arrUF(c.FreshName("fresh"), a.node.w)})
					ln := c.Fresh("fresh.len", 64)
					return Slice{Ptr{obj: o}, c.Int(0), ln, ln}
				}
			}
		}
	}
	return Opaque{"reference changed in a loop"}
}

func (x *Exec) checkRefs(nv, hv Value, maxObj int, ls *LoopSpec) {
	if _, ok := hv.(Opaque); ok {
		return
	}
	switch nv.(type) {
	case Ptr, Slice, Iface, Func:
		if !sameRefs(nv, hv) && !(freshRef(nv, maxObj) && freshRef(hv, maxObj)) {
			panic(unsupported("loop %s: reference changes in an unexpected way", ls.name))
		}
	}
}

// leafPaths expands a location of struct type into its fields.
func leafPaths(st *State, p Ptr) []Ptr {
	sv, ok := st.load(p, nil).(*StructV)
	if !ok {
		return []Ptr{p}
	}
	var r []Ptr
	for i := range sv.f {
		q := Ptr{p.obj, append(append([]PE{}, p.path...), PE{field: i})}
		r = append(r, leafPaths(st, q)...)
	}
	return r
}

func pathKey(p Ptr) string {
	k := fmt.Sprint(p.obj)
	for _, e := range p.path {
		k += fmt.Sprintf(".%d", e.field)
	}
	return k
}

// checkDeep: the references of a location the loop writes are those the summary stands for.
func (x *Exec) checkDeep(nv, hv Value, maxObj int, ls *LoopSpec) {
	switch h := hv.(type) {
	case Opaque:
		return
	case *StructV, *Vec:
		if !sameRefs(nv, hv) {
			panic(unsupported("loop %s: a nested reference changes", ls.name))
		}
	case StrV, *MapV:
		if !sameRefs(nv, hv) {
			panic(unsupported("loop %s: a %T changes", ls.name, h))
		}
	default:
		x.checkRefs(nv, hv, maxObj, ls)
	}
}

// sliceFacts: what holds of every Go slice.
func (x *Exec) sliceFacts(st *State, v Value) {
	c := x.c
	if s, ok := v.(Slice); ok && s.len.op != OConst {
		lim := c.Int(1 << 50)
		st.assume(c.And(c.Sle(c.Int(0), s.len), c.Sle(s.len, s.cap), c.Ult(s.cap, lim), c.Ult(s.off, lim)))
	}
}

// freshVal is an arbitrary value of the shape of v, sharing no memory with it.
func (x *Exec) freshVal(st *State, v Value) Value {
	c := x.c
	switch t := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(t.f))}
		for i := range t.f {
			n.f[i] = x.freshVal(st, t.f[i])
		}
		return n
	case *Vec:
		n := &Vec{e: make([]Value, len(t.e))}
		for i := range t.e {
			n.e[i] = x.freshVal(st, t.e[i])
		}
		return n
	case Slice:
		if t.arr.obj != 0 {
			if a, ok := st.load(t.arr, nil).(*Arr); ok {
				o := st.alloc(&Arr{n: -1, node: c.arrUF(c.FreshName("fresh"), a.node.w)})
				ln := c.Fresh("fresh.len", 64)
				x.maybeNil[o] = true
				s := Slice{Ptr{obj: o}, c.Int(0), ln, ln}
				x.sliceFacts(st, s)
				return s
			}
		}
		return Opaque{"slice changed in a loop"}
	case Ptr, *ChanV, *StreamV:
		return Opaque{"reference changed in a loop"}
	}
	return x.havocVal(v, "fresh", 0)
}
