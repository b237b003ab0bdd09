package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	maxUndecided = 700
	maxVisits    = 400000
)

// Exec runs one harness.
type Exec struct {
	iter       *Term          // iterations of the loop whose invariant is evaluated
	hardMemo   map[*Term]bool // whether a term has products (see ints.go)
	refW       map[int]int    // element widths of arrays created in loops
	maybeNil   map[int]bool   // arrays standing for nil or a fresh slice
	p          *Program
	c          *Ctx
	base       map[int]Value
	nobj       int
	globals    map[*ssa.Global]int
	rec        *recorder
	mergeCost  int
	solver     *Solver
	stats      *Stats
	obls       []*Obl
	oblIdx     map[string]*Obl
	h          *Harness
	quiet      int // >0: discovery run, obligations are not checked
	funcs      map[string]bool
	assumed    map[string]bool
	initing    bool
	errIDs     map[string]uint64
	mergeStr   bool
	replace    map[*ssa.Function]*ssa.Function
	covers     map[string]bool
	paths      int
	deadline   time.Time
	panicsOK   bool
	panics     map[string]bool
	loopInvs   map[*ssa.Function][]*LoopSpec
	inInv      map[string]bool // obligations labels seen
	invMode    int             // 0 none, 1 assert, 2 assume
	invWhere   string
	decOld     []*Term
	decNew     []*Term
	failMax    int
	nfail      int
	callDepth  int
	curCall    []string
	loopStat   map[string]int
	retained   int
	noretmerge map[string]bool
	callerOf   *Frame // of the call about to be made
	callerAt   *ssa.BasicBlock
}

type Obl struct {
	Label    string
	Where    string
	N        int // times proved
	Failed   bool
	Reason   string // "refuted", "unknown", "unsupported"
	Model    *Model
	Engines  map[string]int
	Conds    []string
	Expected bool
}

type recorder struct {
	parent *recorder
	writes map[string]Ptr
	maxObj int // only objects that existed at loop entry matter
}

func (r *recorder) write(p Ptr) {
	for ; r != nil; r = r.parent {
		if p.obj > r.maxObj {
			continue
		}
		// key at field granularity; array offsets collapse to the array
		q := Ptr{p.obj, nil}
		key := fmt.Sprint(p.obj)
		for _, e := range p.path {
			if e.off != nil {
				if e.off.op == OConst && e.field == -1 { // reference vector cell
				}
				break
			}
			q.path = append(q.path, e)
			key += fmt.Sprintf(".%d", e.field)
		}
		r.writes[key] = q
	}
}

type Frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	env    []Value
	defers []deferred
	pure   bool
	undec  map[*ssa.BasicBlock]int
	visits map[*ssa.BasicBlock]int
	depth  int
	caller *Frame // of a function executed in place
	at     *ssa.BasicBlock
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]Value(nil), f.env...)
	n.defers = append([]deferred(nil), f.defers...)
	n.undec = map[*ssa.BasicBlock]int{}
	for k, v := range f.undec {
		n.undec[k] = v
	}
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

type arrival struct {
	st  *State
	fr  *Frame
	blk *ssa.BasicBlock // nil: returned
	ret []Value
}

type Outcome struct {
	st  *State
	ret []Value
}

type stopset []*ssa.BasicBlock

func (s stopset) has(b *ssa.BasicBlock) bool {
	for _, x := range s {
		if x == b {
			return true
		}
	}
	return false
}

// ---- function info ----

type fnInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	n     int
	joins map[*ssa.BasicBlock]*ssa.BasicBlock
	small map[*ssa.BasicBlock]bool   // the branches up to the join are short and straight
	live  map[*ssa.BasicBlock][]bool // live-in (after phis: phis included)
	hdr   map[*ssa.BasicBlock]int    // loop headers in source order, 1-based
	nphi  map[*ssa.BasicBlock]int
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	debug map[string][]*ssa.DebugRef
	pos   map[*ssa.BasicBlock]token.Pos // of the loops
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, small: map[*ssa.BasicBlock]bool{}, joins: map[*ssa.BasicBlock]*ssa.BasicBlock{}, hdr: map[*ssa.BasicBlock]int{}, nphi: map[*ssa.BasicBlock]int{},
		body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock][]bool{}, debug: map[string][]*ssa.DebugRef{}}
	p.infos[fn] = fi
	add := func(v ssa.Value) { fi.num[v] = fi.n; fi.n++ }
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[b]++
			}
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil {
				fi.debug[d.Object().Name()] = append(fi.debug[d.Object().Name()], d)
			}
		}
	}
	// loops
	type hp struct {
		b   *ssa.BasicBlock
		pos token.Pos
	}
	var hs []hp
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if fi.body[s] == nil {
					fi.body[s] = map[*ssa.BasicBlock]bool{s: true}
					hs = append(hs, hp{s, blockPos(s)})
				}
				// natural loop
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if fi.body[s][x] {
						continue
					}
					fi.body[s][x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for i := range hs { // position of a loop: the smallest position in its body
		m := token.Pos(0)
		for b := range fi.body[hs[i].b] {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if q := in.Pos(); q != 0 && (m == 0 || q < m) {
					m = q
				}
			}
		}
		hs[i].pos = m
	}
	sort.SliceStable(hs, func(i, j int) bool {
		if hs[i].pos != hs[j].pos {
			return hs[i].pos < hs[j].pos
		}
		return len(fi.body[hs[i].b]) > len(fi.body[hs[j].b])
	})
	fi.pos = map[*ssa.BasicBlock]token.Pos{}
	for i, h := range hs {
		fi.hdr[h.b] = i + 1
		fi.pos[h.b] = h.pos
	}
	// liveness
	nb := len(fn.Blocks)
	liveIn := make([][]bool, nb)
	for i := range liveIn {
		liveIn[i] = make([]bool, fi.n)
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := make([]bool, fi.n)
			for _, s := range b.Succs {
				for k, v := range liveIn[s.Index] {
					if v {
						cur[k] = true
					}
				}
				// phi defs of s are not live out of b; their operands are
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					cur[fi.num[ph]] = false
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, pr := range s.Preds {
						if pr == b {
							if k, ok := fi.num[ph.Edges[pi]]; ok {
								cur[k] = true
							}
						}
					}
				}
			}
			for ii := len(b.Instrs) - 1; ii >= 0; ii-- {
				in := b.Instrs[ii]
				if _, ok := in.(*ssa.Phi); ok {
					// phi results stay live at block start (after the phis)
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					cur[fi.num[v]] = false
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if k, ok := fi.num[*op]; ok {
							cur[k] = true
						}
					}
				}
			}
			for k, v := range cur {
				if v && !liveIn[bi][k] {
					liveIn[bi][k] = true
					changed = true
				}
			}
		}
	}
	for i, b := range fn.Blocks {
		fi.live[b] = liveIn[i]
	}
	// joins
	for _, b := range fn.Blocks {
		if len(b.Succs) == 2 && b.Succs[0] != b.Succs[1] {
			fi.joins[b] = findJoin(b)
			fi.small[b] = smallJoin(b, fi.joins[b])
		}
	}
	return fi
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := in.Pos(); p != 0 {
			return p
		}
	}
	return 0
}

func isExit(b *ssa.BasicBlock) bool {
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Return, *ssa.Panic:
		return true
	}
	return false
}

func reach(from, avoid1, avoid2 *ssa.BasicBlock) (map[*ssa.BasicBlock]bool, []*ssa.BasicBlock) {
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	if from == avoid1 || from == avoid2 {
		return seen, nil
	}
	q := []*ssa.BasicBlock{from}
	seen[from] = true
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		order = append(order, b)
		for _, s := range b.Succs {
			if s != avoid1 && s != avoid2 && !seen[s] {
				seen[s] = true
				q = append(q, s)
			}
		}
	}
	return seen, order
}

// smallJoin is true if the branches between b and its join j are short and neither call nor loop.
func smallJoin(b, j *ssa.BasicBlock) bool {
	n := 0
	for _, s := range b.Succs {
		blocks, _ := reach(s, b, j)
		n += len(blocks)
		for a := range blocks {
			if len(a.Instrs) > 30 || j != nil && isExit(a) {
				return false
			}
			if _, ok := a.Instrs[len(a.Instrs)-1].(*ssa.Panic); ok {
				return false
			}
			for _, t := range a.Succs {
				if t == b || t.Dominates(a) {
					return false
				}
			}
			for _, in := range a.Instrs {
				if _, ok := in.(ssa.CallInstruction); ok {
					return false
				}
			}
		}
	}
	return n <= 6
}

// postJoin is the first block, without going round a loop, where all the branches of b meet that do not leave the function.
func postJoin(b *ssa.BasicBlock) *ssa.BasicBlock {
	forward := func(from, avoid *ssa.BasicBlock) (order []*ssa.BasicBlock, back bool) {
		if from == avoid {
			return nil, false
		}
		seen := map[*ssa.BasicBlock]bool{from: true}
		order = []*ssa.BasicBlock{from}
		for i := 0; i < len(order); i++ {
			for _, s := range order[i].Succs {
				if s == avoid || seen[s] {
					continue
				}
				if s.Dominates(order[i]) {
					back = true
					continue
				}
				seen[s] = true
				order = append(order, s)
			}
		}
		return order, back
	}
	o1, _ := forward(b.Succs[0], nil)
	o2, _ := forward(b.Succs[1], nil)
	r2 := map[*ssa.BasicBlock]bool{}
	for _, s := range o2 {
		r2[s] = true
	}
	for _, p := range o1 {
		if !r2[p] {
			continue
		}
		ok := true
		for _, s := range b.Succs {
			_, back := forward(s, p)
			ok = ok && !back
		}
		if ok && !(isExit(p) && len(p.Preds) < 2) {
			return p
		}
	}
	return nil
}

func findJoin(b *ssa.BasicBlock) *ssa.BasicBlock {
	s1, s2 := b.Succs[0], b.Succs[1]
	r1, o1 := reach(s1, b, nil)
	r2, _ := reach(s2, b, nil)
	for _, j := range o1 {
		if !r2[j] || isExit(j) && len(j.Preds) < 2 {
			continue
		}
		a1, _ := reach(s1, b, j)
		a2, _ := reach(s2, b, j)
		ok := true
		for x := range a1 {
			if a2[x] && !isExit(x) {
				ok = false
				break
			}
		}
		if ok {
			return j
		}
	}
	_ = r1
	// b itself as join (loop header test inside)
	return nil
}

// ---- execution ----

type abortT struct{ msg string }

func (x *Exec) call(st *State, fn *ssa.Function, args []Value, binds []Value, pure bool) []Outcome {
	caller, at := x.callerOf, x.callerAt
	x.callerOf, x.callerAt = nil, nil
	if r, ok := x.replace[fn]; ok && !pure && x.h != nil {
		fn = r
	}
	if o := fn.Origin(); o != nil && o != fn {
		x.note(o)
	}
	if out, ok := x.intrinsic(st, fn, args, pure); ok {
		return out
	}
	if x.initing && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && x.p.inits[fn.Pkg] == nil {
		return []Outcome{{st: st}}
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of %s (no body)", fn))
	}
	x.note(fn)
	if strings.HasPrefix(fn.Name(), "sp") && len(fn.Name()) > 2 && fn.Name()[2] >= 'A' && fn.Name()[2] <= 'Z' {
		pure = true
	}
	x.callDepth++
	if x.callDepth > 200 {
		panic(unsupported("call depth"))
	}
	x.curCall = append(x.curCall, fn.Name())
	defer func() { x.callDepth--; x.curCall = x.curCall[:len(x.curCall)-1] }()
	fi := x.p.info(fn)
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n), pure: pure, undec: map[*ssa.BasicBlock]int{}, visits: map[*ssa.BasicBlock]int{}, caller: caller, at: at}
	if len(args) != len(fn.Params) {
		panic(unsupported("args of %s: %d for %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.num[p]] = binds[i]
	}
	arr := x.run(st, fr, fn.Blocks[0], 0, nil)
	var outs []Outcome
	for _, a := range arr {
		if a.blk != nil {
			panic("stray arrival")
		}
		outs = append(outs, Outcome{a.st, a.ret})
	}
	if len(outs) > 1 && (pure || x.callDepth > 2 && !x.noretmerge[fn.Name()]) {
		outs = x.mergeOutcomes(fn, outs, pure)
	}
	return outs
}

func (x *Exec) note(fn *ssa.Function) {
	if fn.Pkg != nil && x.h != nil {
		pos := x.p.fset.Position(fn.Pos())
		if strings.HasPrefix(pos.Filename, x.p.repo+"/") && !strings.Contains(pos.Filename, "zz_v") && !strings.Contains(pos.Filename, "/internal/vc/") {
			x.funcs[fn.RelString(nil)] = true
		}
	}
}

func (x *Exec) mergeOutcomes(fn *ssa.Function, outs []Outcome, pure bool) []Outcome {
	res := fn.Signature.Results()
	errIdx := map[int]bool{}
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			errIdx[i] = true
		}
	}
	if pure {
		errIdx = nil
	}
	var done []Outcome
	for _, o := range outs {
		merged := false
		for i := range done {
			d := done[i]
			x.mergeStr = false
			for k := range errIdx {
				if t, ok := o.ret[k].(*Term); ok && d.ret[k] == o.ret[k] && (t.op == OConst && t.k != 0 || d.st.known[x.c.Eq(t, x.c.Const(0, 32))] == false && t.op != OConst) {
					x.mergeStr = true
				}
			}
			ms, vals := x.mergeStates(d.st, o.st, d.ret, o.ret, errIdx)
			x.mergeStr = false
			if ms != nil {
				done[i] = Outcome{ms, vals}
				merged = true
				break
			}
		}
		if !merged {
			done = append(done, o)
		}
	}
	return done
}

// run executes from instruction idx of block b; the phis of b have been evaluated when idx > 0 or b has none.
func (x *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, idx int, stops stopset) []arrival {
	var result []arrival
	for {
		if x.h != nil && time.Now().After(x.deadline) {
			panic(unsupported("time limit of the harness reached in %s", fr.fn))
		}
		var i int
		for i = idx; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			switch in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				goto term
			}
			more, dead := x.instr(st, fr, in)
			if dead {
				return result
			}
			if more != nil {
				// several outcomes: continue each
				for k, o := range more {
					f2 := fr
					if k < len(more)-1 {
						f2 = fr.clone()
					}
					if v, ok := in.(ssa.Value); ok {
						f2.env[fr.fi.num[v]] = o.val(v)
					}
					if k == len(more)-1 {
						st = o.st
						break
					}
					result = append(result, x.run(o.st, f2, b, i+1, stops)...)
				}
				continue
			}
		}
		panic("no terminator")
	term:
		switch t := b.Instrs[i].(type) {
		case *ssa.Return:
			ret := make([]Value, len(t.Results))
			for k, r := range t.Results {
				ret[k] = x.eval(st, fr, r)
			}
			return append(result, arrival{st: st, ret: ret})
		case *ssa.Panic:
			x.explicitPanic(st, fr, t)
			return result
		case *ssa.Jump:
			nb := b.Succs[0]
			arr, cont := x.enter(st, fr, b, nb, stops)
			if !cont {
				return append(result, arr...)
			}
			b, idx = nb, fr.fi.nphi[nb]
		case *ssa.If:
			cv := st.simp(x.term(st, fr, t.Cond))
			tr, fa := true, true
			if cv == x.c.tt {
				fa = false
			} else if cv == x.c.ff {
				tr = false
			} else if !fr.pure && !(x.h != nil && (x.h.lazy && fr.fi.small[b] || x.h.lazyAll)) {
				tr, fa = x.feasible(st, cv)
			}
			if !tr && !fa {
				return result
			}
			if tr != fa {
				nb := b.Succs[0]
				lit := cv
				if fa {
					nb = b.Succs[1]
					lit = x.c.Not(cv)
				}
				if cv.op != OConst {
					if !st.assume(lit) {
						return result
					}
				}
				arr, cont := x.enter(st, fr, b, nb, stops)
				if !cont {
					return append(result, arr...)
				}
				b, idx = nb, fr.fi.nphi[nb]
				continue
			}
			// fork
			for h := range fr.fi.hdr {
				if fr.fi.body[h][b] {
					fr.undec[h]++
					if fr.undec[h] > maxUndecided {
						panic(unsupported("loop %d of %s needs an invariant (%d undecided iterations)", fr.fi.hdr[h], fr.fn, maxUndecided))
					}
				}
			}
			x.paths++
			st2, fr2 := st.clone(), fr.clone()
			okT := st.assume(cv)
			okF := st2.assume(x.c.Not(cv))
			j := fr.fi.joins[b]
			inner := stops
			if x.h != nil && x.h.lazyAll {
				if far := postJoin(b); far != nil && far != j && !stops.has(far) {
					return append(result, x.runFar(st, fr, st2, fr2, b, j, far, okT, okF, stops)...)
				}
			}
			if j != nil && !stops.has(j) {
				inner = append(append(stopset{}, stops...), j)
			} else {
				j = nil
			}
			var arrs []arrival
			if okT {
				arrs = append(arrs, x.goBlock(st, fr, b, b.Succs[0], inner)...)
			}
			if okF {
				arrs = append(arrs, x.goBlock(st2, fr2, b, b.Succs[1], inner)...)
			}
			if j == nil {
				return append(result, arrs...)
			}
			var at []arrival
			for _, a := range arrs {
				if a.blk == j {
					at = append(at, a)
				} else {
					result = append(result, a)
				}
			}
			at = x.mergeArrivals(at, j, fr.pure)
			for _, a := range at {
				arr, cont := x.atBlock(a.st, a.fr, j, stops)
				if !cont {
					result = append(result, arr...)
					continue
				}
				result = append(result, x.run(a.st, a.fr, j, a.fr.fi.nphi[j], stops)...)
			}
			return result
		}
	}
}

// runFar executes both branches of b up to the join far, where all of them meet that do not leave the function; those
// that meet earlier, at j, are merged there.
func (x *Exec) runFar(st *State, fr *Frame, st2 *State, fr2 *Frame, b, j, far *ssa.BasicBlock, okT, okF bool, stops stopset) (result []arrival) {
	outer := append(append(stopset{}, stops...), far)
	inner := outer
	if j != nil && !stops.has(j) {
		inner = append(append(stopset{}, outer...), j)
	} else {
		j = nil
	}
	var arrs []arrival
	if okT {
		arrs = append(arrs, x.goBlock(st, fr, b, b.Succs[0], inner)...)
	}
	if okF {
		arrs = append(arrs, x.goBlock(st2, fr2, b, b.Succs[1], inner)...)
	}
	var near, at []arrival
	sort := func(arrs []arrival) {
		for _, a := range arrs {
			switch {
			case j != nil && a.blk == j:
				near = append(near, a)
			case a.blk == far:
				at = append(at, a)
			default:
				result = append(result, a)
			}
		}
	}
	sort(arrs)
	merged := x.mergeArrivals(near, j, fr.pure)
	near = nil
	jj := j
	j = nil
	for _, a := range merged {
		arr, cont := x.atBlock(a.st, a.fr, jj, outer)
		if cont {
			arr = x.run(a.st, a.fr, jj, a.fr.fi.nphi[jj], outer)
		}
		sort(arr)
	}
	for _, a := range x.mergeArrivals(at, far, fr.pure) {
		arr, cont := x.atBlock(a.st, a.fr, far, stops)
		if !cont {
			result = append(result, arr...)
			continue
		}
		result = append(result, x.run(a.st, a.fr, far, a.fr.fi.nphi[far], stops)...)
	}
	return result
}

func (x *Exec) goBlock(st *State, fr *Frame, from, to *ssa.BasicBlock, stops stopset) []arrival {
	arr, cont := x.enter(st, fr, from, to, stops)
	if !cont {
		return arr
	}
	return x.run(st, fr, to, fr.fi.nphi[to], stops)
}

// enter evaluates the phis of nb and reports whether execution goes on inside it.
func (x *Exec) enter(st *State, fr *Frame, from, nb *ssa.BasicBlock, stops stopset) ([]arrival, bool) {
	if n := fr.fi.nphi[nb]; n > 0 {
		pi := -1
		for i, p := range nb.Preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = x.eval(st, fr, nb.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < n; i++ {
			fr.env[fr.fi.num[nb.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	if fr.fi.hdr[nb] > 0 {
		if !fr.fi.body[nb][from] {
			fr.undec[nb] = 0
			fr.visits[nb] = 0
		} else {
			fr.visits[nb]++
			if fr.visits[nb] > maxVisits {
				panic(unsupported("loop %d of %s does not end", fr.fi.hdr[nb], fr.fn))
			}
		}
	}
	if stops.has(nb) {
		return []arrival{{st: st, fr: fr, blk: nb}}, false
	}
	return x.atBlock(st, fr, nb, stops)
}

func (x *Exec) atBlock(st *State, fr *Frame, nb *ssa.BasicBlock, stops stopset) ([]arrival, bool) {
	if k := fr.fi.hdr[nb]; k > 0 && !fr.pure {
		if ls := x.loopSpec(fr.fn, k); ls != nil {
			return x.loop(st, fr, nb, ls, stops), false
		}
	}
	return nil, true
}

func (x *Exec) mergeArrivals(at []arrival, j *ssa.BasicBlock, pure bool) []arrival {
	if len(at) < 2 {
		return at
	}
	live := at[0].fr.fi.live[j]
	mask := func(env []Value) []Value {
		r := make([]Value, len(env))
		for i := range env {
			if live[i] {
				r[i] = env[i]
			}
		}
		return r
	}
	var done []arrival
	for _, a := range at {
		merged := false
		for i := range done {
			d := done[i]
			if len(d.fr.defers) != len(a.fr.defers) {
				continue
			}
			ms, vals := x.mergeStates(d.st, a.st, mask(d.fr.env), mask(a.fr.env), nil)
			if ms != nil {
				f := d.fr.clone()
				f.env = vals
				for k, v := range a.fr.undec {
					f.undec[k] = max(f.undec[k], v)
				}
				done[i] = arrival{st: ms, fr: f, blk: j}
				merged = true
				break
			}
		}
		if !merged {
			done = append(done, a)
		}
	}
	return done
}

// slow reports queries that take long.
func slow(t time.Time, label string, v *Term) {
	if d := time.Since(t); d > time.Second && os.Getenv("GOVC_SLOW") != "" {
		fmt.Printf("SLOW %.1fs %s: %.3000s\n", d.Seconds(), label, v)
	}
}

func (x *Exec) feasible(st *State, cv *Term) (bool, bool) {
	if x.solver == nil {
		panic(unsupported("symbolic branch during initialisation"))
	}
	lits := st.literals()
	defer slow(time.Now(), "feasible", cv)
	if soft := x.soft(lits); x.hard(cv) || len(soft) < len(lits) {
		ncv := x.c.Not(cv)
		switch {
		case x.follows(st, lits, ncv):
			return false, true
		case x.follows(st, lits, cv):
			return true, false
		case x.hard(cv):
			if x.linUnsat(st, lits, cv, 2*time.Second) {
				return false, true
			}
			return true, !x.linUnsat(st, lits, ncv, 2*time.Second)
		}
		if x.solver.Check(soft, cv, 3000) == Unsat || x.intUnsat(st, lits, cv, time.Second, true) {
			return false, true
		}
		return true, x.solver.Check(soft, ncv, 3000) != Unsat && !x.intUnsat(st, lits, ncv, time.Second, true)
	}
	r1 := x.solver.Check(lits, cv, 3000)
	if r1 == Unsat {
		return false, true
	}
	r2 := x.solver.Check(lits, x.c.Not(cv), 3000)
	return true, r2 != Unsat
}

func (o Outcome) val(v ssa.Value) Value {
	if len(o.ret) == 0 {
		return nil
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		return Tuple(o.ret)
	}
	return o.ret[0]
}

func (x *Exec) where(fr *Frame, pos token.Pos) string {
	if pos == 0 {
		pos = fr.fn.Pos()
	}
	p := x.p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.p.repo+"/"), p.Line)
}

func (x *Exec) explicitPanic(st *State, fr *Frame, t *ssa.Panic) {
	msg := "panic"
	if mi, ok := t.X.(*ssa.MakeInterface); ok {
		if cst, ok := mi.X.(*ssa.Const); ok && cst.Value != nil {
			msg = cst.Value.ExactString()
		}
	}
	if x.quiet > 0 || fr.pure {
		return
	}
	if x.panicsOK && msg != "panic" {
		x.panics[msg] = true
		return
	}
	x.prove(st, x.c.ff, "no panic "+msg, x.where(fr, t.Pos()))
}

// ---- obligations ----

func (x *Exec) prove(st *State, t *Term, label, where string) bool {
	if x.quiet > 0 || x.initing {
		return true
	}
	key := label
	o := x.oblIdx[key]
	if o == nil {
		o = &Obl{Label: label, Where: where, Engines: map[string]int{}}
		x.oblIdx[key] = o
		x.obls = append(x.obls, o)
	}
	s := st.simp(t)
	if s == x.c.tt {
		o.N++
		o.Engines["simplifier"]++
		return true
	}
	if o.Failed && o.Model != nil {
		return false // one counterexample per obligation is enough
	}
	lits := st.literals()
	neg := x.c.Not(s)
	defer slow(time.Now(), label, s)
	if soft := x.soft(lits); x.hard(s) || len(soft) < len(lits) {
		e := ""
		switch {
		case x.follows(st, lits, s):
			e = "differences"
		case !x.hard(s) && s != x.c.ff && x.solver.Check(soft, neg, 4000) == Unsat:
			e = "z3-new (incremental)"
		case x.linUnsat(st, lits, neg, 4*time.Second):
			e = "z3-new (integers)"
		}
		if e != "" {
			o.N++
			o.Engines[e]++
			return true
		}
	}
	r := Unknown
	if s != x.c.ff || true {
		r = x.solver.Check(lits, neg, 4000)
	}
	if r == Unsat {
		o.N++
		o.Engines["z3-new (incremental)"]++
		return true
	}
	if x.nfail > 12 {
		o.Failed = true
		if o.Reason == "" {
			o.Reason = "not attempted after many failures"
		}
		return false
	}
	to := x.h.timeout()
	r2, model, eng := OneShot(append(append([]*Term{}, lits...), neg), to, x.stats, true, false)
	if r2 == Unsat {
		o.N++
		o.Engines[eng]++
		return true
	}
	x.nfail++
	// the harness has failed: what else fails is of interest, but not for long
	if d := time.Now().Add(60 * time.Second); x.deadline.After(d) {
		x.deadline = d
	}
	o.Failed = true
	o.Where = where
	if r2 == Sat {
		o.Reason = "refuted by " + eng
		o.Model = x.model(x.smallModel(append(append([]*Term{}, lits...), neg), model))
	} else {
		o.Reason = "no solver decided it"
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "FAILED %s at %s: %s\n  goal %s\n", label, where, o.Reason, s.str(10))
		for _, l := range lits {
			fmt.Fprintf(os.Stderr, "   path %s\n", l.str(7))
		}
		if o.Model != nil {
			fmt.Fprintf(os.Stderr, "  model %s\n", o.Model.JSON())
		}
	}
	return false
}

// smallModel looks for a counterexample that is small enough to be replayed on the real code.
func (x *Exec) smallModel(terms []*Term, model map[*Term]uint64) map[*Term]uint64 {
	var vars, lens []*Term
	for t := range model {
		if t.op == OVar && t.w == 64 {
			vars = append(vars, t)
			if strings.HasSuffix(t.name, ".len") {
				lens = append(lens, t)
			}
		}
	}
	for _, vs := range [][]*Term{vars, lens} {
		big := false
		q := append([]*Term{}, terms...)
		for _, v := range vs {
			big = big || model[v] > 1<<13
			q = append(q, x.c.Ule(v, x.c.Const(1<<13, 64)))
		}
		if !big {
			return model
		}
		if r, m, _ := OneShot(q, 10*time.Second, x.stats, true, false); r == Sat && m != nil {
			return m
		}
	}
	return model
}

// require proves t as a runtime-fault obligation and continues under it; false = path ends.
func (x *Exec) require(st *State, fr *Frame, t *Term, kind string, in ssa.Instruction) bool {
	s := st.simp(t)
	if s == x.c.tt {
		if x.quiet == 0 && !fr.pure && !x.initing {
			x.count("no runtime fault: "+kind+" in "+fr.fn.RelString(fr.fn.Package().Pkg), in, fr)
		}
		return true
	}
	if !fr.pure && x.quiet == 0 && !x.initing {
		x.prove(st, s, "no runtime fault: "+kind+" in "+fnName(fr.fn), x.where(fr, in.Pos()))
	}
	if s == x.c.ff {
		if x.initing {
			panic(unsupported("fault during initialisation: %s in %s", kind, fr.fn))
		}
		return false
	}
	return st.assume(s)
}

func fnName(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.RelString(fn.Pkg.Pkg)
	}
	return fn.String()
}

func (x *Exec) count(label string, in ssa.Instruction, fr *Frame) {
	o := x.oblIdx[label]
	if o == nil {
		o = &Obl{Label: label, Where: x.where(fr, in.Pos()), Engines: map[string]int{}}
		x.oblIdx[label] = o
		x.obls = append(x.obls, o)
	}
	o.N++
	o.Engines["simplifier"]++
}

// ---- values ----

func (x *Exec) eval(st *State, fr *Frame, v ssa.Value) Value {
	switch t := v.(type) {
	case *ssa.Const:
		return x.constVal(t)
	case *ssa.Global:
		return Ptr{obj: x.global(t)}
	case *ssa.Function:
		return Func{fn: t}
	case *ssa.Builtin:
		return t
	}
	k, ok := fr.fi.num[v]
	if !ok {
		panic(unsupported("value %s", v))
	}
	return fr.env[k]
}

func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	r := x.eval(st, fr, v)
	t, ok := r.(*Term)
	if !ok {
		panic(unsupported("scalar expected for %s (%s) in %s, got %T", v.Name(), v, fr.fn, r))
	}
	return t
}

func (x *Exec) global(g *ssa.Global) int {
	if o, ok := x.globals[g]; ok {
		return o
	}
	x.nobj++
	x.globals[g] = x.nobj
	et := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil && x.p.inits[g.Pkg] == nil { // external package: initial value by name
		if isErrorType(et) {
			x.base[x.nobj] = x.errID(g.Pkg.Pkg.Path() + "." + g.Name())
		} else {
			x.base[x.nobj] = Opaque{"external " + g.String()}
		}
	} else {
		x.base[x.nobj] = x.zero(et)
	}
	return x.nobj
}

func (x *Exec) errID(name string) *Term {
	id, ok := x.errIDs[name]
	if !ok {
		id = uint64(len(x.errIDs) + 1)
		x.errIDs[name] = id
	}
	return x.c.Const(id, 32)
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	w, ok := scalarWidth(t)
	if !ok {
		if k.Value.Kind() == constant.String {
			return StrV{constant.StringVal(k.Value)}
		}
		if b, isb := t.Underlying().(*types.Basic); isb && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(k.Value)
			return FloatV{f}
		}
		panic(unsupported("constant %s", k))
	}
	if w == 0 {
		return x.c.Bool(constant.BoolVal(k.Value))
	}
	cv := constant.ToInt(k.Value)
	if i, ok := constant.Int64Val(cv); ok {
		return x.c.Const(uint64(i), w)
	}
	u, _ := constant.Uint64Val(cv)
	return x.c.Const(u, w)
}

type FloatV struct{ f float64 }

// conv converts an integer index term to 64 bits, by the signedness of its type.
func (x *Exec) idx64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return x.c.SExt(t, 64)
	}
	return x.c.ZExt(t, 64)
}

// instr executes one non-terminator instruction. It returns outcomes when the path splits, dead when it ends.
func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) (more []Outcome, dead bool) {
	c := x.c
	set := func(v ssa.Value, r Value) { fr.env[fr.fi.num[v]] = r }
	st.steps++
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		panic("phi")
	case *ssa.Alloc:
		set(t, Ptr{obj: st.alloc(x.zero(t.Type().(*types.Pointer).Elem()))})
	case *ssa.BinOp:
		r, d := x.binop(st, fr, t)
		if d {
			return nil, true
		}
		set(t, r)
	case *ssa.UnOp:
		switch t.Op {
		case token.MUL:
			p, ok := x.eval(st, fr, t.X).(Ptr)
			if !ok {
				panic(unsupported("load through %T in %s", x.eval(st, fr, t.X), fr.fn))
			}
			if p.obj == 0 {
				if !x.require(st, fr, c.ff, "nil pointer dereference", in) {
					return nil, true
				}
			}
			v := st.load(p, t.Type())
			if tv, ok := v.(*Term); ok {
				v = tv
			}
			set(t, v)
		case token.NOT:
			set(t, c.Not(x.term(st, fr, t.X)))
		case token.SUB:
			if f, ok := x.eval(st, fr, t.X).(FloatV); ok {
				set(t, FloatV{-f.f})
				break
			}
			set(t, c.Neg(x.term(st, fr, t.X)))
		case token.XOR:
			set(t, c.BvNot(x.term(st, fr, t.X)))
		case token.ARROW:
			return x.recv(st, fr, t)
		default:
			panic(unsupported("unop %s", t.Op))
		}
	case *ssa.Store:
		p, ok := x.eval(st, fr, t.Addr).(Ptr)
		if !ok {
			panic(unsupported("store through %T in %s", x.eval(st, fr, t.Addr), fr.fn))
		}
		if p.obj == 0 {
			if !x.require(st, fr, c.ff, "nil pointer dereference", in) {
				return nil, true
			}
		}
		if st.frozen[p.obj] && !fr.pure {
			x.prove(st, c.ff, "no write to an object after it has been handed over", x.where(fr, in.Pos()))
		}
		st.store(p, x.eval(st, fr, t.Val))
	case *ssa.FieldAddr:
		p, ok := x.eval(st, fr, t.X).(Ptr)
		if !ok {
			panic(unsupported("field of %T in %s", x.eval(st, fr, t.X), fr.fn))
		}
		if p.obj == 0 {
			if !x.require(st, fr, c.ff, "nil pointer dereference", in) {
				return nil, true
			}
		}
		set(t, extend(p, PE{field: t.Field}))
	case *ssa.Field:
		s := x.eval(st, fr, t.X)
		sv, ok := s.(*StructV)
		if !ok {
			panic(unsupported("field of %T", s))
		}
		set(t, sv.f[t.Field])
	case *ssa.IndexAddr:
		i := x.idx64(x.term(st, fr, t.Index), t.Index.Type())
		switch xt := t.X.Type().Underlying().(type) {
		case *types.Slice:
			s, ok := x.eval(st, fr, t.X).(Slice)
			if !ok {
				panic(unsupported("slice %T", x.eval(st, fr, t.X)))
			}
			if !x.require(st, fr, c.Ult(i, s.len), "index out of range", in) {
				return nil, true
			}
			if g := x.gseqOf(st, s); g != nil {
				outs := x.gseqElem(st, g, c.Add(s.off, i))
				return outs, len(outs) == 0
			}
			set(t, x.elemPtr(s.arr, c.Add(s.off, i), xt.Elem()))
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			p := x.eval(st, fr, t.X).(Ptr)
			if p.obj == 0 && !x.require(st, fr, c.ff, "nil pointer dereference", in) {
				return nil, true
			}
			if !x.require(st, fr, c.Ult(i, c.Int(at.Len())), "index out of range", in) {
				return nil, true
			}
			set(t, x.elemPtr(p, st.simpVal(i), at.Elem()))
		default:
			panic(unsupported("IndexAddr %s", t.X.Type()))
		}
	case *ssa.Index:
		i := x.idx64(x.term(st, fr, t.Index), t.Index.Type())
		switch xv := x.eval(st, fr, t.X).(type) {
		case *Arr:
			at := t.X.Type().Underlying().(*types.Array)
			if !x.require(st, fr, c.Ult(i, c.Int(at.Len())), "index out of range", in) {
				return nil, true
			}
			_, n, _ := flat(at.Elem())
			set(t, st.loadIn(xv, []PE{{field: -1, off: c.MulK(i, uint64(n))}}, t.Type()))
		case *Vec:
			if !x.require(st, fr, c.Ult(i, c.Int(int64(len(xv.e)))), "index out of range", in) {
				return nil, true
			}
			if i.op != OConst {
				panic(unsupported("symbolic index of references"))
			}
			set(t, xv.e[i.k])
		default:
			panic(unsupported("Index of %T", xv))
		}
	case *ssa.Slice:
		r, d := x.slice(st, fr, t)
		if d {
			return nil, true
		}
		set(t, r)
	case *ssa.MakeSlice:
		n := x.idx64(x.term(st, fr, t.Len), t.Len.Type())
		cp := x.idx64(x.term(st, fr, t.Cap), t.Cap.Type())
		lim := c.Int(1 << 40)
		if !x.require(st, fr, c.Ule(n, lim), "make with negative or huge length", in) {
			return nil, true
		}
		if cp != n && !x.require(st, fr, c.And(c.Ule(n, cp), c.Ule(cp, lim)), "make with bad capacity", in) {
			return nil, true
		}
		set(t, x.makeSlice(st, t.Type().Underlying().(*types.Slice).Elem(), n, cp))
	case *ssa.MakeInterface:
		v := x.eval(st, fr, t.X)
		if isErrorType(t.Type()) {
			set(t, x.errID("type "+t.X.Type().String()))
			break
		}
		set(t, Iface{t.X.Type(), v})
	case *ssa.ChangeInterface:
		v := x.eval(st, fr, t.X)
		if isErrorType(t.Type()) && !isErrorType(t.X.Type()) {
			panic(unsupported("interface to error"))
		}
		if isErrorType(t.X.Type()) && !isErrorType(t.Type()) {
			v = Iface{errorType, v}
		}
		set(t, v)
	case *ssa.ChangeType:
		set(t, x.eval(st, fr, t.X))
	case *ssa.Convert:
		set(t, x.convert(x.eval(st, fr, t.X), t.X.Type(), t.Type()))
	case *ssa.MakeClosure:
		f := Func{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.binds = append(f.binds, x.eval(st, fr, b))
		}
		set(t, f)
	case *ssa.MakeChan:
		set(t, Ptr{obj: st.alloc(&ChanV{closed: c.ff})})
	case *ssa.MakeMap:
		set(t, Ptr{obj: st.alloc(&MapV{m: map[string]Value{}})})
	case *ssa.MapUpdate:
		x.mapUpdate(st, fr, t)
	case *ssa.Lookup:
		x.lookup(st, fr, t)
	case *ssa.Range:
		set(t, x.rangeStart(st, fr, t))
	case *ssa.Next:
		set(t, x.rangeNext(st, fr, t))
	case *ssa.Extract:
		tv := x.eval(st, fr, t.Tuple)
		tt, ok := tv.(Tuple)
		if !ok {
			panic(unsupported("extract from %T", tv))
		}
		set(t, tt[t.Index])
	case *ssa.TypeAssert:
		r, d := x.typeAssert(st, fr, t)
		if d {
			return nil, true
		}
		set(t, r)
	case *ssa.Call:
		outs := x.callCommon(st, fr, &t.Call, in)
		if len(outs) == 0 {
			return nil, true
		}
		if len(outs) == 1 && outs[0].st == st {
			set(t, outs[0].val(t))
			return nil, false
		}
		return outs, false
	case *ssa.Go:
		fv, args := x.callee(st, fr, &t.Call)
		st.spawn = append(append([]Value(nil), st.spawn...), spawned{fv, args})
	case *ssa.Defer:
		fv, args := x.callee(st, fr, &t.Call)
		fr.defers = append(fr.defers, deferred{&t.Call, fv, args})
	case *ssa.RunDefers:
		return x.runDefers(st, fr)
	case *ssa.Send:
		return x.send(st, fr, t)
	default:
		panic(unsupported("instruction %T in %s", in, fr.fn))
	}
	return nil, false
}

type spawned struct {
	fn   Value
	args []Value
}

func (x *Exec) elemPtr(arr Ptr, i *Term, elem types.Type) Ptr {
	if _, n, ok := flat(elem); ok {
		return extend(arr, PE{field: -1, off: x.c.MulK(i, uint64(n))})
	}
	return extend(arr, PE{field: -1, off: i})
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, cp *Term) Slice {
	c := x.c
	if leaf, m, ok := flat(elem); ok {
		_ = m
		z := x.zero(leaf).(*Term)
		o := st.alloc(&Arr{n: -1, node: c.arrConst(z)})
		return Slice{Ptr{obj: o}, c.Int(0), n, cp}
	}
	if cp.op != OConst || cp.k > 100000 {
		panic(unsupported("make of %s with symbolic length", elem))
	}
	v := &Vec{e: make([]Value, cp.k)}
	for i := range v.e {
		v.e[i] = x.zero(elem)
	}
	o := st.alloc(v)
	return Slice{Ptr{obj: o}, c.Int(0), n, cp}
}

func (x *Exec) convert(v Value, from, to types.Type) Value {
	c := x.c
	switch t := v.(type) {
	case *Term:
		w, ok := scalarWidth(to)
		if !ok {
			if b, isb := to.Underlying().(*types.Basic); isb && b.Info()&types.IsFloat != 0 && t.op == OConst {
				if isSigned(from) {
					return FloatV{float64(sext64(t.k, t.w))}
				}
				return FloatV{float64(t.k)}
			}
			return Opaque{"conversion"}
		}
		if w <= t.w {
			return c.Extract(t, w-1, 0)
		}
		if isSigned(from) {
			return c.SExt(t, w)
		}
		return c.ZExt(t, w)
	case FloatV:
		if w, ok := scalarWidth(to); ok {
			return c.Const(uint64(int64(t.f)), w)
		}
		return t
	case StrV:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			_ = sl
			return Opaque{"[]byte(string)"}
		}
		return t
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return Opaque{"string conversion"}
	}
	panic(unsupported("convert %T to %s", v, to))
}

func (x *Exec) slice(st *State, fr *Frame, t *ssa.Slice) (Value, bool) {
	c := x.c
	var s Slice
	var elem types.Type
	switch xt := t.X.Type().Underlying().(type) {
	case *types.Slice:
		sv, ok := x.eval(st, fr, t.X).(Slice)
		if !ok {
			panic(unsupported("slice of %T", x.eval(st, fr, t.X)))
		}
		s = sv
		elem = xt.Elem()
	case *types.Pointer:
		at, ok := xt.Elem().Underlying().(*types.Array)
		if !ok {
			panic(unsupported("slice of %s", xt))
		}
		p := x.eval(st, fr, t.X).(Ptr)
		if p.obj == 0 && !x.require(st, fr, c.ff, "nil pointer dereference", t) {
			return nil, true
		}
		n := c.Int(at.Len())
		s = Slice{p, c.Int(0), n, n}
		elem = at.Elem()
		if len(p.path) > 0 && p.path[len(p.path)-1].off != nil { // inside a flat array
			if _, _, ok := flat(elem); ok {
				// element offsets are in scalars of elem: only scalar elems keep units
				if _, m, _ := flat(elem); m != 1 {
					panic(unsupported("slice of nested array rows"))
				}
			}
		}
	default:
		if sv, ok := x.eval(st, fr, t.X).(StrV); ok {
			lo, hi := 0, len(sv.s)
			if t.Low != nil {
				lo = int(x.term(st, fr, t.Low).k)
			}
			if t.High != nil {
				hi = int(x.term(st, fr, t.High).k)
			}
			return StrV{sv.s[lo:hi]}, false
		}
		panic(unsupported("slice of %s", t.X.Type()))
	}
	lo, hi, mx := c.Int(0), s.len, s.cap
	if t.Low != nil {
		lo = x.idx64(x.term(st, fr, t.Low), t.Low.Type())
	}
	if t.High != nil {
		hi = x.idx64(x.term(st, fr, t.High), t.High.Type())
	}
	if t.Max != nil {
		mx = x.idx64(x.term(st, fr, t.Max), t.Max.Type())
		if !x.require(st, fr, c.Ule(mx, s.cap), "slice bounds out of range", t) {
			return nil, true
		}
	}
	if !x.require(st, fr, c.And(c.Ule(lo, hi), c.Ule(hi, mx)), "slice bounds out of range", t) {
		return nil, true
	}
	return Slice{s.arr, c.Add(s.off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}, false
}

func (x *Exec) typeAssert(st *State, fr *Frame, t *ssa.TypeAssert) (Value, bool) {
	c := x.c
	v := x.eval(st, fr, t.X)
	iv, ok := v.(Iface)
	if !ok {
		if tm, isT := v.(*Term); isT && isErrorType(t.X.Type()) {
			// error values of unknown dynamic type
			if isErrorType(t.AssertedType) && t.CommaOk {
				return Tuple{tm, c.Not(c.Eq(tm, c.Const(0, 32)))}, false
			}
		}
		panic(unsupported("type assertion on %T", v))
	}
	match := false
	if iv.typ != nil {
		if it, isI := t.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(iv.typ, it)
		} else {
			match = types.Identical(iv.typ, t.AssertedType)
		}
	}
	var r Value
	if match {
		if _, isI := t.AssertedType.Underlying().(*types.Interface); isI {
			r = iv
		} else {
			r = iv.v
		}
	} else {
		r = x.zero(t.AssertedType)
	}
	if t.CommaOk {
		return Tuple{r, c.Bool(match)}, false
	}
	if !match && !x.require(st, fr, c.ff, "type assertion", t) {
		return nil, true
	}
	return r, false
}

func (x *Exec) binop(st *State, fr *Frame, t *ssa.BinOp) (Value, bool) {
	c := x.c
	a, b := x.eval(st, fr, t.X), x.eval(st, fr, t.Y)
	if t.Op == token.EQL || t.Op == token.NEQ {
		r := x.equal(a, b, t.X.Type(), t.Y.Type())
		if t.Op == token.NEQ {
			r = c.Not(r)
		}
		return r, false
	}
	at, ok := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok || !ok2 {
		if af, ok := a.(FloatV); ok {
			if bf, ok := b.(FloatV); ok {
				switch t.Op {
				case token.ADD:
					return FloatV{af.f + bf.f}, false
				case token.SUB:
					return FloatV{af.f - bf.f}, false
				case token.MUL:
					return FloatV{af.f * bf.f}, false
				case token.QUO:
					return FloatV{af.f / bf.f}, false
				}
			}
		}
		if as, ok := a.(StrV); ok {
			if bs, ok := b.(StrV); ok {
				switch t.Op {
				case token.ADD:
					return StrV{as.s + bs.s}, false
				case token.LSS:
					return c.Bool(as.s < bs.s), false
				}
			}
		}
		if t.Op == token.ADD {
			return Opaque{"string"}, false
		}
		panic(unsupported("%s on %T %T", t.Op, a, b))
	}
	sg := isSigned(t.X.Type())
	switch t.Op {
	case token.ADD:
		return c.Add(at, bt), false
	case token.SUB:
		return c.Sub(at, bt), false
	case token.MUL:
		return c.Mul(at, bt), false
	case token.QUO, token.REM:
		if !x.require(st, fr, c.Not(c.Eq(bt, c.Const(0, bt.w))), "division by zero", t) {
			return nil, true
		}
		switch {
		case t.Op == token.QUO && sg:
			return c.SDiv(at, bt), false
		case t.Op == token.QUO:
			return c.UDiv(at, bt), false
		case sg:
			return c.SRem(at, bt), false
		}
		return c.URem(at, bt), false
	case token.AND:
		if at.w == 0 {
			return c.And(at, bt), false
		}
		return c.BvAnd(at, bt), false
	case token.OR:
		if at.w == 0 {
			return c.Or(at, bt), false
		}
		return c.BvOr(at, bt), false
	case token.XOR:
		return c.BvXor(at, bt), false
	case token.AND_NOT:
		return c.BvAnd(at, c.BvNot(bt)), false
	case token.SHL, token.SHR:
		if isSigned(t.Y.Type()) {
			if !x.require(st, fr, c.Sle(c.Const(0, bt.w), bt), "negative shift", t) {
				return nil, true
			}
		}
		bt = st.simpVal(bt)
		// shift count to the operand width, saturating
		var s *Term
		if bt.w > at.w {
			if bt.hi <= mask(at.w) {
				s = c.Extract(bt, at.w-1, 0)
			} else {
				s = c.Ite(c.Ult(bt, c.Const(uint64(at.w), bt.w)), c.Extract(bt, at.w-1, 0), c.Const(uint64(at.w), at.w))
			}
		} else {
			s = c.ZExt(bt, at.w)
		}
		if t.Op == token.SHL {
			return c.Shl(at, s), false
		}
		if sg {
			return c.AShr(at, s), false
		}
		return c.LShr(at, s), false
	case token.LSS:
		if sg {
			return c.Slt(at, bt), false
		}
		return c.Ult(at, bt), false
	case token.GTR:
		if sg {
			return c.Slt(bt, at), false
		}
		return c.Ult(bt, at), false
	case token.LEQ:
		if sg {
			return c.Sle(at, bt), false
		}
		return c.Ule(at, bt), false
	case token.GEQ:
		if sg {
			return c.Sle(bt, at), false
		}
		return c.Ule(bt, at), false
	}
	panic(unsupported("binop %s", t.Op))
}

func (x *Exec) equal(a, b Value, ta, tb types.Type) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		if bv, ok := b.(*Term); ok {
			return c.Eq(av, bv)
		}
		if bi, ok := b.(Iface); ok && bi.typ == nil {
			return c.Eq(av, c.Const(0, av.w))
		}
	case Ptr:
		if bv, ok := b.(Ptr); ok {
			if av.obj != bv.obj {
				return c.ff
			}
			if av.obj == 0 || samePtr(av, bv) {
				return c.tt
			}
			if len(av.path) != len(bv.path) {
				return c.ff
			}
			r := c.tt
			for i := range av.path {
				if (av.path[i].off == nil) != (bv.path[i].off == nil) || av.path[i].field != bv.path[i].field {
					return c.ff
				}
				if av.path[i].off != nil {
					r = c.And(r, c.Eq(av.path[i].off, bv.path[i].off))
				}
			}
			return r
		}
	case Slice:
		if bv, ok := b.(Slice); ok { // comparison with nil
			if x.maybeNil[av.arr.obj] || x.maybeNil[bv.arr.obj] {
				panic(unsupported("comparison with nil of a slice changed in a loop"))
			}
			if bv.arr.obj == 0 && isNilConst(bv) {
				return c.Bool(av.arr.obj == 0)
			}
			return c.Bool(bv.arr.obj == 0)
		}
	case Func:
		if bv, ok := b.(Func); ok {
			return c.Bool((av.fn == nil && av.hook == "") == (bv.fn == nil && bv.hook == ""))
		}
	case StrV:
		if bv, ok := b.(StrV); ok {
			return c.Bool(av.s == bv.s)
		}
	case *MapV:
		if bv, ok := b.(*MapV); ok {
			return c.Bool(av == bv)
		}
	case Iface:
		if bv, ok := b.(Iface); ok {
			if av.typ == nil || bv.typ == nil {
				return c.Bool(av.typ == nil && bv.typ == nil)
			}
			if !types.Identical(av.typ, bv.typ) {
				return c.ff
			}
			return x.equal(av.v, bv.v, av.typ, bv.typ)
		}
		if bt, ok := b.(*Term); ok && av.typ == nil {
			return c.Eq(bt, c.Const(0, bt.w))
		}
	case *StructV:
		if bv, ok := b.(*StructV); ok {
			r := c.tt
			st := ta.Underlying().(*types.Struct)
			for i := range av.f {
				r = c.And(r, x.equal(av.f[i], bv.f[i], st.Field(i).Type(), st.Field(i).Type()))
			}
			return r
		}
	case *Arr:
		if bv, ok := b.(*Arr); ok && av.n == bv.n && av.n >= 0 {
			if av.node == bv.node {
				return c.tt
			}
			r := c.tt
			for i := 0; i < av.n; i++ {
				r = c.And(r, c.Eq(av.node.sel(c.Int(int64(i))), bv.node.sel(c.Int(int64(i)))))
			}
			return r
		}
	case *Vec:
		if bv, ok := b.(*Vec); ok && len(av.e) == len(bv.e) {
			r := c.tt
			if at, ok := ta.Underlying().(*types.Array); ok {
				for i := range av.e {
					r = c.And(r, x.equal(av.e[i], bv.e[i], at.Elem(), at.Elem()))
				}
				return r
			}
		}
	case Opaque:
		panic(unsupported("comparison of %s", av.name))
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func isNilConst(s Slice) bool { return s.arr.obj == 0 }

// ---- maps (concrete keys) ----

func (x *Exec) mapKey(v Value) string {
	switch t := v.(type) {
	case StrV:
		return "s" + t.s
	case *Term:
		if t.op == OConst {
			return fmt.Sprintf("n%020d", t.k)
		}
	}
	panic(unsupported("map key %T", v))
}

func (x *Exec) mapUpdate(st *State, fr *Frame, t *ssa.MapUpdate) {
	p := x.eval(st, fr, t.Map).(Ptr)
	m := st.get(p.obj).(*MapV)
	k := x.eval(st, fr, t.Key)
	ks := x.mapKey(k)
	n := &MapV{m: map[string]Value{}, keys: m.keys}
	for a, b := range m.m {
		n.m[a] = b
	}
	if _, ok := m.m[ks]; !ok {
		n.keys = append(append([]string(nil), m.keys...), ks)
	}
	n.m[ks] = x.eval(st, fr, t.Value)
	if x.rec != nil {
		x.rec.write(p)
	}
	st.set(p.obj, n)
}

func (x *Exec) lookup(st *State, fr *Frame, t *ssa.Lookup) {
	c := x.c
	mv := x.eval(st, fr, t.X)
	if s, ok := mv.(StrV); ok {
		i := x.term(st, fr, t.Index)
		if i.op != OConst || i.k >= uint64(len(s.s)) {
			panic(unsupported("string index"))
		}
		fr.env[fr.fi.num[t]] = c.Const(uint64(s.s[i.k]), 8)
		return
	}
	et := t.X.Type().Underlying().(*types.Map).Elem()
	var m *MapV
	if p, ok := mv.(Ptr); ok && p.obj != 0 {
		m = st.get(p.obj).(*MapV)
	}
	var r Value = nil
	var found *Term = c.ff
	if m != nil {
		kv := x.eval(st, fr, t.Index)
		if kt, ok := kv.(*Term); ok && kt.op != OConst {
			// symbolic key over a table of scalars
			r = x.zero(et)
			for _, k := range m.keys {
				var n uint64
				fmt.Sscanf(k, "n%d", &n)
				e := c.Eq(kt, c.Const(n, kt.w))
				r = x.mergeVal(e, m.m[k], r)
				found = c.Or(found, e)
			}
		} else if v, ok := m.m[x.mapKey(kv)]; ok {
			r, found = v, c.tt
		}
	}
	if r == nil {
		r = x.zero(et)
	}
	if t.CommaOk {
		fr.env[fr.fi.num[t]] = Tuple{r, found}
	} else {
		fr.env[fr.fi.num[t]] = r
	}
}

type iterV struct {
	keys []string
	m    *MapV
	obj  int
}

func (x *Exec) rangeStart(st *State, fr *Frame, t *ssa.Range) Value {
	switch v := x.eval(st, fr, t.X).(type) {
	case Ptr:
		m := st.get(v.obj).(*MapV)
		ks := append([]string(nil), m.keys...)
		sort.Strings(ks)
		o := st.alloc(x.c.Int(0))
		return &iterV{keys: ks, m: m, obj: o}
	case StrV:
		var ks []string
		m := &MapV{m: map[string]Value{}}
		for i, r := range v.s {
			k := fmt.Sprintf("n%020d", i)
			ks = append(ks, k)
			m.m[k] = x.c.Const(uint64(r), 32)
		}
		o := st.alloc(x.c.Int(0))
		return &iterV{keys: ks, m: m, obj: o}
	}
	panic(unsupported("range over %T", x.eval(st, fr, t.X)))
}

func (x *Exec) rangeNext(st *State, fr *Frame, t *ssa.Next) Value {
	it := x.eval(st, fr, t.Iter).(*iterV)
	i := st.get(it.obj).(*Term)
	tt := t.Type().(*types.Tuple)
	if int(i.k) >= len(it.keys) {
		z := func(k int) Value {
			if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return x.zero(tt.At(k).Type())
		}
		return Tuple{x.c.ff, z(1), z(2)}
	}
	st.set(it.obj, x.c.Add(i, x.c.Int(1)))
	k := it.keys[i.k]
	var kv Value
	if k[0] == 's' {
		kv = StrV{k[1:]}
	} else {
		var n uint64
		fmt.Sscanf(k, "n%d", &n)
		w := 64
		if ww, ok := scalarWidth(tt.At(1).Type()); ok {
			w = ww
		}
		kv = x.c.Const(n, w)
	}
	return Tuple{x.c.tt, kv, it.m.m[k]}
}

// ---- calls ----

func (x *Exec) callee(st *State, fr *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := x.eval(st, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.eval(st, fr, a))
		}
		if isErrorType(cc.Value.Type()) {
			return Func{hook: "error.Error"}, args
		}
		iv, ok := recv.(Iface)
		if !ok {
			panic(unsupported("invoke on %T", recv))
		}
		if iv.typ == nil {
			return Func{hook: "nil interface"}, args
		}
		if x.isStreamType(iv.typ) {
			return Func{hook: "stream." + cc.Method.Name()}, append([]Value{iv.v}, args...)
		}
		m := x.p.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			panic(unsupported("no method %s on %s", cc.Method.Name(), iv.typ))
		}
		return Func{fn: m}, append([]Value{iv.v}, args...)
	}
	for _, a := range cc.Args {
		args = append(args, x.eval(st, fr, a))
	}
	return x.eval(st, fr, cc.Value), args
}

func (x *Exec) callCommon(st *State, fr *Frame, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	fv, args := x.callee(st, fr, cc)
	return x.callValue(st, fr, fv, args, cc, in)
}

func (x *Exec) callValue(st *State, fr *Frame, fv Value, args []Value, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	switch f := fv.(type) {
	case *ssa.Builtin:
		return x.builtin(st, fr, f, args, cc, in)
	case Func:
		if f.hook != "" {
			if f.hook == "nil interface" {
				x.require(st, fr, x.c.ff, "nil pointer dereference", in)
				return nil
			}
			return x.hook(st, fr, f, args, in)
		}
		if f.fn == nil {
			x.require(st, fr, x.c.ff, "call of nil function", in)
			return nil
		}
		x.callerOf, x.callerAt = fr, nil
		if in != nil {
			x.callerAt = in.Block()
		}
		return x.call(st, f.fn, args, f.binds, fr.pure)
	}
	panic(unsupported("call of %T in %s", fv, fr.fn))
}

func (x *Exec) runDefers(st *State, fr *Frame) ([]Outcome, bool) {
	if len(fr.defers) == 0 {
		return nil, false
	}
	outs := []Outcome{{st: st}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []Outcome
		for _, o := range outs {
			for _, r := range x.callValue(o.st, fr, d.fn, d.args, d.call, fr.fn.Blocks[0].Instrs[0]) {
				next = append(next, Outcome{st: r.st})
			}
		}
		outs = next
	}
	fr.defers = nil
	if len(outs) == 0 {
		return nil, true
	}
	if len(outs) == 1 && outs[0].st == st {
		return nil, false
	}
	return outs, false
}

func (x *Exec) builtin(st *State, fr *Frame, f *ssa.Builtin, args []Value, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	c := x.c
	one := func(v ...Value) []Outcome { return []Outcome{{st, v}} }
	switch f.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case Slice:
			if f.Name() == "cap" {
				return one(v.cap)
			}
			return one(v.len)
		case StrV:
			return one(c.Int(int64(len(v.s))))
		case *Arr:
			return one(c.Int(int64(v.n)))
		case *Vec:
			return one(c.Int(int64(len(v.e))))
		case Ptr:
			if at, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				return one(c.Int(at.Elem().Underlying().(*types.Array).Len()))
			}
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				if v.obj == 0 {
					return one(c.Int(0))
				}
				return one(c.Int(int64(len(st.get(v.obj).(*MapV).keys))))
			}
		case Opaque:
			return one(c.Fresh("len", 64))
		}
		panic(unsupported("len of %T", args[0]))
	case "copy":
		d, ok := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if !ok || !ok2 {
			panic(unsupported("copy %T %T", args[0], args[1]))
		}
		n := st.simpVal(c.Ite(st.simp(c.Ult(s.len, d.len)), s.len, d.len))
		x.copySlice(st, fr, d, s, n, in)
		return one(n)
	case "append":
		return one(x.appendSlice(st, fr, args, cc, in))
	case "close":
		return x.closeChan(st, fr, args[0], in)
	case "print", "println":
		return one()
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if f.Name() == "max" {
				lt = c.Not(lt)
			}
			r = c.Ite(lt, t, r)
		}
		return one(r)
	case "ssa:wrapnilchk":
		return one(args[0])
	case "recover":
		return one(Iface{})
	}
	panic(unsupported("builtin %s", f.Name()))
}

func (x *Exec) node(st *State, s Slice) (*ANode, *Term) {
	// container node and the base offset of the slice's array inside it
	v := st.get(s.arr.obj)
	c := x.c
	for i, pe := range s.arr.path {
		switch vv := v.(type) {
		case *StructV:
			v = vv.f[pe.field]
		case *Vec:
			if pe.off != nil {
				v = vv.e[pe.off.k]
			} else {
				v = vv.e[pe.field]
			}
		case *Arr:
			off := c.Int(0)
			for _, q := range s.arr.path[i:] {
				off = c.Add(off, q.off)
			}
			return vv.node, off
		}
	}
	a, ok := v.(*Arr)
	if !ok {
		panic(unsupported("bytes of %T", v))
	}
	return a.node, c.Int(0)
}

func (x *Exec) setNode(st *State, s Slice, n *ANode) {
	// replace the container's node
	p := s.arr
	for len(p.path) > 0 && p.path[len(p.path)-1].off != nil {
		p = Ptr{p.obj, p.path[:len(p.path)-1]}
	}
	cur := st.load(p, nil)
	a := cur.(*Arr)
	st.store(p, &Arr{n: a.n, node: n})
}

func (x *Exec) copySlice(st *State, fr *Frame, d, s Slice, n *Term, in ssa.Instruction) {
	c := x.c
	if n.op == OConst && n.k == 0 || d.arr.obj == 0 || s.arr.obj == 0 {
		return
	}
	if st.frozen[d.arr.obj] && !fr.pure {
		x.prove(st, c.Eq(n, c.Int(0)), "no write to an object after it has been handed over", x.where(fr, in.Pos()))
	}
	if dv, ok := x.vecOf(st, d); ok {
		sv, _ := x.vecOf(st, s)
		nv := &Vec{e: append([]Value(nil), dv.e...)}
		if n.op != OConst || d.off.op != OConst || s.off.op != OConst {
			panic(unsupported("symbolic copy of references"))
		}
		for i := uint64(0); i < n.k; i++ {
			nv.e[d.off.k+i] = sv.e[s.off.k+i]
		}
		st.store(d.arr, nv)
		return
	}
	dn, db := x.node(st, d)
	sn, sb := x.node(st, s)
	x.setNode(st, d, dn.copyFrom(c.Add(db, d.off), sn, c.Add(sb, s.off), n))
}

func (x *Exec) vecOf(st *State, s Slice) (*Vec, bool) {
	if s.arr.obj == 0 {
		return nil, false
	}
	v, ok := st.load(s.arr, nil).(*Vec)
	return v, ok
}

func (x *Exec) appendSlice(st *State, fr *Frame, args []Value, cc *ssa.CallCommon, in ssa.Instruction) Value {
	c := x.c
	s, ok := args[0].(Slice)
	if !ok {
		panic(unsupported("append to %T", args[0]))
	}
	e, ok := args[1].(Slice)
	if !ok {
		return Opaque{"append"}
	}
	if e.len.op == OConst && e.len.k == 0 {
		return s
	}
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	n := c.Add(s.len, e.len)
	if _, _, ok := flat(elem); ok {
		// a fresh backing array: aliasing of spare capacity is not modelled, so the result must not share it
		o := st.alloc(&Arr{n: -1, node: c.arrConst(x.zero(mustLeaf(elem)).(*Term))})
		r := Slice{Ptr{obj: o}, c.Int(0), n, n}
		if s.arr.obj != 0 {
			x.copySlice(st, fr, r, s, s.len, in)
		}
		r2 := Slice{r.arr, s.len, e.len, e.len}
		x.copySlice(st, fr, r2, e, e.len, in)
		return r
	}
	if g := x.gseqOf(st, s); g != nil {
		ev, ok := x.vecOf(st, e)
		if !ok || e.len.op != OConst || e.off.op != OConst || s.off.op != OConst || s.off.k != 0 || st.simp(c.Eq(s.len, c.Add(g.n, c.Int(int64(len(g.cells)))))) != c.tt {
			panic(unsupported("append to a part of a sequence"))
		}
		ng := &GSeq{n: g.n, gen: g.gen, pred: g.pred, cells: append([]Value(nil), g.cells...)}
		for _, v := range ev.e[e.off.k : e.off.k+e.len.k] {
			freezeRef(st, v)
			ng.cells = append(ng.cells, v)
		}
		return Slice{Ptr{obj: st.alloc(ng)}, c.Int(0), n, n}
	}
	if s.len.op != OConst || e.len.op != OConst {
		panic(unsupported("append of references with symbolic length"))
	}
	v := &Vec{}
	if s.len.k > 0 {
		sv, _ := x.vecOf(st, s)
		v.e = append(v.e, sv.e[s.off.k:s.off.k+s.len.k]...)
	}
	if ev, ok := x.vecOf(st, e); ok {
		v.e = append(v.e, ev.e[e.off.k:e.off.k+e.len.k]...)
	} else {
		panic(unsupported("append of %s", elem))
	}
	o := st.alloc(v)
	return Slice{Ptr{obj: o}, c.Int(0), n, n}
}

func mustLeaf(t types.Type) types.Type {
	l, _, _ := flat(t)
	return l
}
