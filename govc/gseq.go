package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// GSeq is the content of a slice of references of symbolic length: elements below n are given by gen (a function of
// the index) or described by pred (what is known of element i), cells follow them.
type GSeq struct {
	n     *Term
	gen   *Func
	pred  *Func
	cells []Value
}

func (x *Exec) gseqOf(st *State, s Slice) *GSeq {
	if s.arr.obj == 0 {
		return nil
	}
	g, _ := st.load(s.arr, nil).(*GSeq)
	return g
}

func freezeRef(st *State, v Value) {
	o := refObj(v)
	if o == 0 || st.frozen[o] {
		return
	}
	f := map[int]bool{o: true}
	for k := range st.frozen {
		f[k] = true
	}
	st.frozen = f
}

// gseqBase is an arbitrary element below n, in each of its cases.
func (x *Exec) gseqBase(st *State, g *GSeq, i *Term) []Outcome {
	switch {
	case g.gen != nil:
		return x.call(st, g.gen.fn, []Value{i}, g.gen.binds, false)
	case g.pred != nil:
		et := g.pred.fn.Params[len(g.pred.fn.Params)-1].Type()
		var v Value
		if pt, ok := et.(*types.Pointer); ok {
			p := Ptr{obj: st.alloc(x.any(x.c.FreshName("elem"), pt.Elem()))}
			v = p
		} else {
			v = x.any(x.c.FreshName("elem"), et)
		}
		freezeRef(st, v)
		outs := x.call(st, g.pred.fn, []Value{i, v}, g.pred.binds, true)
		if len(outs) != 1 {
			panic(unsupported("element condition with %d outcomes", len(outs)))
		}
		if !outs[0].st.assume(outs[0].ret[0].(*Term)) {
			return nil
		}
		return []Outcome{{outs[0].st, []Value{v}}}
	}
	panic(unsupported("element of a sequence nothing is known about"))
}

// gseqElem is the address of element i (frozen: elements cannot be assigned through it).
func (x *Exec) gseqElem(st *State, g *GSeq, i *Term) []Outcome {
	c := x.c
	var outs []Outcome
	put := func(s *State, v Value) {
		o := s.alloc(v)
		freezeRef(s, Ptr{obj: o})
		outs = append(outs, Outcome{s, []Value{Ptr{obj: o}}})
	}
	try := func(cond *Term) *State {
		s := st.clone()
		if cond = s.simp(cond); cond == c.ff || !s.assume(cond) {
			return nil
		}
		if cond != c.tt {
			if ok, _ := x.feasible(st, cond); !ok {
				return nil
			}
		}
		return s
	}
	if s := try(c.Ult(i, g.n)); s != nil {
		for _, o := range x.gseqBase(s, g, i) {
			put(o.st, o.ret[0])
		}
	}
	for j, v := range g.cells {
		if s := try(c.Eq(i, c.Add(g.n, c.Int(int64(j))))); s != nil {
			put(s, v)
		}
	}
	return outs
}

// elemsCall implements vc.SetElems and vc.InvElems.
func (x *Exec) elemsCall(st *State, fn *ssa.Function, n string, args []Value) ([]Outcome, bool) {
	c := x.c
	f, ok := ifaceVal(args[2]).(Func)
	if !ok {
		panic(unsupported("vc.%s: not a function", n))
	}
	cnt := args[1].(*Term)
	if n == "SetElems" {
		o := st.alloc(&GSeq{n: cnt, gen: &f})
		st.store(ifaceVal(args[0]).(Ptr), Slice{Ptr{obj: o}, c.Int(0), cnt, cnt})
		return []Outcome{{st, nil}}, true
	}
	s := ifaceVal(args[0]).(Slice)
	label := "invariant " + x.invWhere + ": " + x.argName(args[3])
	holds := func(s2 *State, i *Term, v Value) {
		for _, o := range x.call(s2, f.fn, []Value{i, v}, f.binds, true) {
			x.prove(o.st, o.ret[0].(*Term), label, "loop")
		}
	}
	switch x.invMode {
	case 1:
		x.prove(st, c.Eq(s.len, cnt), label+" (length)", "loop")
		if s.arr.obj == 0 {
			break
		}
		if s.off.op != OConst || s.off.k != 0 {
			panic(unsupported("sequence with an offset"))
		}
		switch g := st.load(s.arr, nil).(type) {
		case *GSeq:
			i := c.Fresh("i", 64)
			s2 := st.clone()
			if s2.assume(c.Ult(i, g.n)) {
				for _, o := range x.gseqBase(s2, g, i) {
					holds(o.st, i, o.ret[0])
				}
			}
			for j, v := range g.cells {
				holds(st.clone(), c.Add(g.n, c.Int(int64(j))), v)
			}
		case *Vec:
			if s.len.op != OConst {
				panic(unsupported("sequence of symbolic length"))
			}
			for j := uint64(0); j < s.len.k; j++ {
				holds(st.clone(), c.Int(int64(j)), g.e[j])
			}
		default:
			panic(unsupported("vc.InvElems of %T", g))
		}
	case 2:
		if !st.assume(c.Eq(s.len, cnt)) {
			return nil, true
		}
		if g := x.gseqOf(st, s); g != nil && g.gen == nil && g.pred == nil {
			st.set(s.arr.obj, &GSeq{n: cnt, pred: &f})
		}
	default:
		panic(unsupported("vc.InvElems outside an invariant"))
	}
	return []Outcome{{st, nil}}, true
}
