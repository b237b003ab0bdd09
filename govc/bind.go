package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// aLoop is a loop of the current source.
type aLoop struct {
	fn *ssa.Function
	n  int
	h  *ssa.BasicBlock
}

// bindLoops attaches the invariants of a harness to the loops of the current source. When the function an invariant
// names has fewer loops than its invariants, some have moved into functions it calls: the loops of those are considered
// where they are called. (Invariants are proved whatever they are attached to.)
func (x *Exec) bindLoops(h *Harness) {
	p := x.p
	want := map[string]bool{}
	for _, n := range h.invs {
		want[n] = false
	}
	groups := map[string][]*LoopSpec{}
	homes := map[*ssa.Function]bool{}
	for _, ls := range p.loopSpecs {
		if ls.fn.Pkg.Pkg.Path() != h.Pkg {
			continue
		}
		if ls.of != nil {
			homes[ls.of] = true
		}
		if _, ok := want[ls.name]; ok {
			want[ls.name] = true
			groups[ls.target] = append(groups[ls.target], ls)
		}
	}
	for n, found := range want {
		if !found {
			panic(unsupported("invariant %s is not defined", n))
		}
	}
	targets := []string{}
	for t := range groups {
		targets = append(targets, t)
	}
	sort.Strings(targets)
	for _, t := range targets {
		g := groups[t]
		max := 0
		for _, ls := range p.loopSpecs {
			if ls.fn.Pkg == g[0].fn.Pkg && ls.target == t && ls.n > max {
				max = ls.n
			}
		}
		of, root := g[0].of, g[0].root
		if of != nil && len(p.info(of).hdr) >= max {
			for _, ls := range g {
				x.loopInvs[of] = append(x.loopInvs[of], ls)
			}
			continue
		}
		if of == nil {
			of = root
		}
		if of == nil {
			panic(unsupported("invariant %s: its function no longer exists under that name", g[0].name))
		}
		var loops []aLoop
		x.loopsFrom(of, homes, map[*ssa.Function]bool{}, &loops)
		sort.SliceStable(g, func(i, j int) bool { return g[i].n < g[j].n })
		best, score := []int(nil), -1
		var try func(i, from, sc int, pick []int)
		try = func(i, from, sc int, pick []int) {
			if i == len(g) {
				if sc > score {
					best, score = append([]int(nil), pick...), sc
				}
				return
			}
			for j := from; j < len(loops); j++ {
				try(i+1, j+1, sc+x.loopFit(g[i], loops[j]), append(pick, j))
			}
		}
		try(0, 0, 0, nil)
		if best == nil {
			panic(unsupported("invariant %s: function has only %d loops", g[len(g)-1].name, len(loops)))
		}
		for i, j := range best {
			ls := *g[i]
			ls.of, ls.n = loops[j].fn, loops[j].n
			x.loopInvs[ls.of] = append(x.loopInvs[ls.of], &ls)
		}
	}
}

// loopFit: how many of the invariant's parameters the loop has.
func (x *Exec) loopFit(ls *LoopSpec, l aLoop) int {
	n := 0
	has := func(name string, t types.Type) int {
		for _, in := range l.h.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && ph.Comment == name && types.Identical(ph.Type(), t) {
				return 4
			}
		}
		for _, q := range l.fn.Params {
			if q.Name() == name && types.Identical(q.Type(), t) {
				return 2
			}
		}
		if len(x.p.info(l.fn).debug[name]) > 0 {
			return 2
		}
		for _, b := range l.fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && al.Comment == name {
					return 2
				}
			}
		}
		return 0
	}
	for _, q := range ls.fn.Params {
		n += has(q.Name(), q.Type())
	}
	return n
}

// loopsFrom lists the loops of f and of the functions of its package that it calls, starts or defers, in source order.
func (x *Exec) loopsFrom(f *ssa.Function, homes, seen map[*ssa.Function]bool, out *[]aLoop) {
	if seen[f] || len(f.Blocks) == 0 {
		return
	}
	seen[f] = true
	type ev struct {
		pos int
		l   *aLoop
		f   *ssa.Function
	}
	var evs []ev
	fi := x.p.info(f)
	for h, n := range fi.hdr {
		evs = append(evs, ev{int(fi.pos[h]), &aLoop{f, n, h}, nil})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			callee := func(v ssa.Value) {
				var g *ssa.Function
				switch t := v.(type) {
				case *ssa.Function:
					g = t
				case *ssa.MakeClosure:
					g = t.Fn.(*ssa.Function)
				}
				if g != nil && g.Pkg == f.Pkg && !homes[g] && x.replace[g] == nil {
					evs = append(evs, ev{int(in.Pos()), nil, g})
				}
			}
			switch t := in.(type) {
			case ssa.CallInstruction:
				if !t.Common().IsInvoke() {
					callee(t.Common().Value)
				}
			case *ssa.MakeClosure:
				callee(t)
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].pos < evs[j].pos })
	for _, e := range evs {
		if e.l != nil {
			*out = append(*out, *e.l)
		} else {
			x.loopsFrom(e.f, homes, seen, out)
		}
	}
}
