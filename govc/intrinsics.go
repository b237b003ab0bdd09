package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPath = "github.com/32bitkid/mpeg/internal/vc"
const brPath = "github.com/32bitkid/bitreader"

func (x *Exec) isStreamType(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Stream" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vcPath
}

func (x *Exec) streamIface(obj int) Iface { return Iface{x.p.streamType, Ptr{obj: obj}} }

func (x *Exec) nilErr() *Term { return x.c.Const(0, 32) }

func (x *Exec) eofErr() *Term { return x.errID("io.EOF") }

// checkEOF maps io.EOF to io.ErrUnexpectedEOF.
func (x *Exec) checkEOF(e *Term) *Term {
	return x.c.Ite(x.c.Eq(e, x.eofErr()), x.errID("io.ErrUnexpectedEOF"), e)
}

func (x *Exec) streamOf(st *State, v Value) (int, *StreamV) {
	switch t := v.(type) {
	case Iface:
		if t.typ != nil && x.isStreamType(t.typ) {
			return x.streamOf(st, t.v)
		}
	case Ptr:
		if s, ok := st.get(t.obj).(*StreamV); ok {
			return t.obj, s
		}
	}
	return 0, nil
}

// vcStream is the stream of an argument of vc: a stream, or an object that embeds one.
func (x *Exec) vcStream(st *State, v Value) (int, *StreamV) {
	if o, s := x.streamOf(st, v); s != nil {
		return o, s
	}
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if p, ok := v.(Ptr); ok && p.obj != 0 && len(p.path) == 0 {
		if sv, ok := st.get(p.obj).(*StructV); ok {
			for _, f := range sv.f {
				if i, ok := f.(Iface); ok {
					if o, s := x.streamOf(st, i); s != nil {
						return o, s
					}
				}
			}
		}
	}
	panic(unsupported("vc: not a stream"))
}

func (x *Exec) moveStream(st *State, obj int, s *StreamV, pos *Term) {
	n := *s
	n.pos = pos
	if x.rec != nil {
		x.rec.write(Ptr{obj: obj})
	}
	st.set(obj, &n)
}

// fork splits a state on a condition; an infeasible half is nil.
func (x *Exec) fork(st *State, cond *Term) (yes, no *State) {
	cond = st.simp(cond)
	if cond == x.c.tt {
		return st, nil
	}
	if cond == x.c.ff {
		return nil, st
	}
	tr, fa := x.feasible(st, cond)
	if tr && fa {
		x.paths++
	}
	if fa {
		no = st.clone()
		if !no.assume(x.c.Not(cond)) {
			no = nil
		}
	}
	if tr {
		yes = st
		if !yes.assume(cond) {
			yes = nil
		}
	}
	return yes, no
}

// avail splits on whether n more bits are available.
func (x *Exec) avail(st *State, s *StreamV, nbits *Term) (yes, no *State) {
	c := x.c
	// pos <= len always; enough  <=>  nbits <= len - pos  <=>  !(len < pos+nbits) as positions stay far from wrapping
	enough := st.simp(c.Not(c.Ult(s.len, c.Add(s.pos, nbits))))
	if enough == c.tt {
		return st, nil
	}
	if enough == c.ff {
		return nil, st
	}
	tr, fa := x.feasible(st, enough)
	if tr && fa {
		x.paths++
		st2 := st.clone()
		if !st2.assume(c.Not(enough)) {
			st2 = nil
		}
		if !st.assume(enough) {
			st = nil
		}
		return st, st2
	}
	if tr {
		if !st.assume(enough) {
			return nil, nil
		}
		return st, nil
	}
	if fa {
		if !st.assume(c.Not(enough)) {
			return nil, nil
		}
		return nil, st
	}
	return nil, nil
}

// constBits forks over the values of a symbolic bit count.
func (x *Exec) constBits(st *State, n *Term) []Outcome {
	c := x.c
	n = st.simpVal(n)
	if n.op == OConst {
		return []Outcome{{st, []Value{n}}}
	}
	lo, hi := st.rng(n)
	if hi-lo > 64 {
		panic(unsupported("symbolic bit count %s", n))
	}
	var outs []Outcome
	for k := lo; k <= hi; k++ {
		e := st.simp(c.Eq(n, c.Const(k, n.w)))
		if e == c.ff {
			continue
		}
		if t, _ := x.feasible(st, e); !t {
			continue
		}
		s2 := st.clone()
		if s2.assume(e) {
			outs = append(outs, Outcome{s2, []Value{c.Const(k, n.w)}})
		}
	}
	return outs
}

func (x *Exec) streamRead(st *State, obj int, n *Term, w int, peek bool, maxn uint64) []Outcome {
	c := x.c
	var outs []Outcome
	if n = st.simpVal(n); n.op != OConst && w > 1 {
		if lo, hi := st.rng(n); hi <= maxn && hi <= 32 && hi-lo <= 12 {
			// a small symbolic count: one outcome, case split in the value
			_, s := x.streamOf(st, Ptr{obj: obj})
			yes, no := x.avail(st, s, c.ZExt(n, 64))
			if yes != nil {
				v := c.Const(0, w)
				for j := lo; j <= hi; j++ {
					b := c.Const(0, w)
					if j > 0 {
						b = c.ZExt(c.SBits(s.name, s.pos, int(j)), w)
					}
					v = c.Ite(c.Eq(n, c.Const(j, n.w)), b, v)
				}
				if !peek {
					x.moveStream(yes, obj, s, c.Add(s.pos, c.ZExt(n, 64)))
				}
				outs = append(outs, Outcome{yes, []Value{v, x.nilErr()}})
			}
			if no != nil {
				e := s.endErr
				if !peek {
					e = x.checkEOF(e)
				}
				outs = append(outs, Outcome{no, []Value{c.Const(0, w), e}})
			}
			return outs
		}
	}
	for _, o := range x.constBits(st, n) {
		st := o.st
		k := int(o.ret[0].(*Term).k)
		_, s := x.streamOf(st, Ptr{obj: obj})
		zero := Value(c.Const(0, max(w, 1)))
		if w == 0 {
			zero = c.ff
		}
		if uint64(k) > maxn {
			outs = append(outs, Outcome{st, []Value{zero, x.errID("bitreader overflow")}})
			continue
		}
		if k > 56 {
			panic(unsupported("more than 56 bits at once"))
		}
		if k == 0 {
			outs = append(outs, Outcome{st, []Value{zero, x.nilErr()}})
			continue
		}
		yes, no := x.avail(st, s, c.Int(int64(k)))
		if yes != nil {
			var v *Term = c.SBits(s.name, s.pos, k)
			if w == 0 {
				v = c.Eq(v, c.Const(1, 1))
			} else {
				v = c.ZExt(v, w)
			}
			if !peek {
				x.moveStream(yes, obj, s, c.Add(s.pos, c.Int(int64(k))))
			}
			outs = append(outs, Outcome{yes, []Value{v, x.nilErr()}})
		}
		if no != nil {
			e := s.endErr
			if !peek {
				e = x.checkEOF(e)
			}
			outs = append(outs, Outcome{no, []Value{zero, e}})
		}
	}
	return outs
}

func (x *Exec) streamSkip(st *State, obj int, n *Term) []Outcome {
	c := x.c
	_, s := x.streamOf(st, Ptr{obj: obj})
	if n.op == OConst && n.k == 0 {
		return []Outcome{{st, []Value{x.nilErr()}}}
	}
	var outs []Outcome
	yes, no := x.avail(st, s, n)
	if yes != nil {
		x.moveStream(yes, obj, s, c.Add(s.pos, n))
		outs = append(outs, Outcome{yes, []Value{x.nilErr()}})
	}
	if no != nil {
		x.moveStream(no, obj, s, s.len)
		outs = append(outs, Outcome{no, []Value{x.checkEOF(s.endErr)}})
	}
	return outs
}

func (x *Exec) alignPos(st *State, pos *Term) *Term {
	c := x.c
	low := c.Extract(pos, 2, 0)
	low = st.simpVal(low)
	if low.op == OConst {
		return c.Add(pos, c.Const((8-low.k)&7, 64))
	}
	// symbolic alignment: (8 - low) & 7
	return c.Add(pos, c.ZExt(c.Neg(low), 64))
}

// streamReadFull models io.ReadFull / io.ReadAtLeast(len) on a bit stream.
func (x *Exec) streamReadFull(st *State, fr *Frame, obj int, d Slice, in ssa.Instruction) []Outcome {
	c := x.c
	_, s := x.streamOf(st, Ptr{obj: obj})
	if st.simp(c.Eq(d.len, c.Int(0))) == c.tt {
		return []Outcome{{st, []Value{c.Int(0), x.nilErr()}}}
	}
	var outs []Outcome
	if st.simp(c.Eq(d.len, c.Int(0))) != c.ff {
		if t, _ := x.feasible(st, c.Eq(d.len, c.Int(0))); t {
			s0 := st.clone()
			if s0.assume(c.Eq(d.len, c.Int(0))) {
				outs = append(outs, Outcome{s0, []Value{c.Int(0), x.nilErr()}})
			}
		}
		if !st.assume(c.Not(c.Eq(d.len, c.Int(0)))) {
			return outs
		}
	}
	pos := x.alignPos(st, s.pos)
	s1 := *s
	s1.pos = pos
	yes, no := x.avail(st, &s1, c.MulK(d.len, 8))
	copyIn := func(st *State, n *Term) {
		if st.frozen[d.arr.obj] {
			x.prove(st, c.ff, "no write to an object after it has been handed over", x.where(fr, in.Pos()))
		}
		dn, db := x.node(st, d)
		src := c.arrStream(s.name, pos)
		if n.op == OConst && n.k <= 8 {
			x.setNode(st, d, dn.copyFrom(c.Add(db, d.off), src, c.Int(0), n))
		} else {
			x.setNode(st, d, &ANode{c: c, kind: ACopy, w: 8, base: dn, off: c.Add(db, d.off), src: src, soff: c.Int(0), n: n})
		}
	}
	if yes != nil {
		copyIn(yes, d.len)
		x.moveStream(yes, obj, s, c.Add(pos, c.MulK(d.len, 8)))
		outs = append(outs, Outcome{yes, []Value{d.len, x.nilErr()}})
	}
	if no != nil {
		got := c.LShr(c.Sub(s.len, pos), c.Int(3))
		copyIn(no, got)
		x.moveStream(no, obj, s, s.len)
		none := no.simp(c.Eq(pos, s.len))
		outs = append(outs, Outcome{no, []Value{got, c.Ite(none, s.endErr, x.checkEOF(s.endErr))}})
	}
	return outs
}

func (x *Exec) hook(st *State, fr *Frame, f Func, args []Value, in ssa.Instruction) []Outcome {
	c := x.c
	if f.hook == "error.Error" {
		return []Outcome{{st, []Value{Opaque{"error text"}}}}
	}
	if !strings.HasPrefix(f.hook, "stream.") {
		panic(unsupported("hook %s", f.hook))
	}
	p := args[0].(Ptr)
	m := f.hook[7:]
	_, s := x.streamOf(st, p)
	if s == nil {
		panic(unsupported("stream"))
	}
	nt := func() *Term { return args[1].(*Term) }
	switch m {
	case "Read1":
		return x.streamRead(st, p.obj, c.Int(1), 0, false, 1)
	case "Peek1":
		return x.streamRead(st, p.obj, c.Int(1), 0, true, 1)
	case "Read8":
		return x.streamRead(st, p.obj, nt(), 8, false, 8)
	case "Read16":
		return x.streamRead(st, p.obj, nt(), 16, false, 16)
	case "Read32":
		return x.streamRead(st, p.obj, nt(), 32, false, 32)
	case "Read64":
		return x.streamRead(st, p.obj, nt(), 64, false, 64)
	case "Peek8":
		return x.streamRead(st, p.obj, nt(), 8, true, 8)
	case "Peek16":
		return x.streamRead(st, p.obj, nt(), 16, true, 16)
	case "Peek32":
		return x.streamRead(st, p.obj, nt(), 32, true, 32)
	case "Peek64":
		return x.streamRead(st, p.obj, nt(), 64, true, 64)
	case "Skip":
		return x.streamSkip(st, p.obj, nt())
	case "IsAligned":
		low := st.simpVal(c.Extract(s.pos, 2, 0))
		return []Outcome{{st, []Value{c.Eq(low, c.Const(0, 3))}}}
	case "Align":
		np := x.alignPos(st, s.pos)
		x.moveStream(st, p.obj, s, np)
		return []Outcome{{st, []Value{c.Sub(np, s.pos), x.nilErr()}}}
	case "Read":
		return x.streamShortRead(st, fr, p.obj, args[1].(Slice), in)
	}
	panic(unsupported("stream method %s", m))
}

func (x *Exec) streamShortRead(st *State, fr *Frame, obj int, d Slice, in ssa.Instruction) []Outcome {
	panic(unsupported("direct Read of the bit stream"))
}

func (x *Exec) argName(v Value) string {
	s, ok := v.(StrV)
	if !ok {
		panic(unsupported("vc: name must be a constant string"))
	}
	return s.s
}

// intrinsic handles functions with built-in meaning.
func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Value, pure bool) ([]Outcome, bool) {
	c := x.c
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	}
	one := func(v ...Value) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	recv := ""
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil {
			recv = n.Obj().Name() + "."
		}
	}
	name := pkg + "." + recv + fn.Name()
	if pkg == vcPath {
		return x.vcCall(st, fn, args, pure)
	}
	switch pkg {
	case "fmt", "log", "github.com/32bitkid/clog", "strconv", "strings", "unicode", "time":
		if fn.Name() == "Errorf" {
			return one(x.errID("fmt.Errorf"))
		}
		if pkg == "strings" && len(args) > 0 {
			if s, ok := args[0].(StrV); ok {
				if len(args) == 3 && (fn.Name() == "ReplaceAll") {
					return one(StrV{strings.ReplaceAll(s.s, args[1].(StrV).s, args[2].(StrV).s)})
				}
			}
		}
		res := fn.Signature.Results()
		var r []Value
		for i := 0; i < res.Len(); i++ {
			if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				r = append(r, Opaque{"text"})
			} else if _, ok := scalarWidth(res.At(i).Type()); ok {
				r = append(r, x.zero(res.At(i).Type()))
			} else {
				r = append(r, Opaque{name})
			}
		}
		return one(r...)
	case "sync", "sync/atomic":
		panic(unsupported("call of %s", name))
	}
	switch name {
	case "errors.New":
		n := "errors.New"
		if s, ok := args[0].(StrV); ok {
			n += " " + s.s
		}
		if x.initing {
			n = fmt.Sprintf("%s #%d", n, len(x.errIDs))
		}
		return one(x.errID(n))
	case "math/bits.Mul64":
		a, b := args[0].(*Term), args[1].(*Term)
		l := x.ints(st, st.literals())
		if ra, rb := l.rng(a), l.rng(b); ra[0].Sign() >= 0 && rb[0].Sign() >= 0 && new(big.Int).Mul(ra[1], rb[1]).IsUint64() {
			return one(c.Const(0, 64), c.Mul(a, b))
		}
		return one(c.Fresh("Mul64", 64), c.Mul(a, b))
	case "errors.Is":
		return one(c.Eq(args[0].(*Term), args[1].(*Term)))
	case "regexp.MustCompile":
		return one(Opaque{"regexp " + args[0].(StrV).s})
	case "regexp.Regexp.ReplaceAllString":
		re := args[0].(Opaque).name
		return one(StrV{regexp.MustCompile(strings.TrimPrefix(re, "regexp ")).ReplaceAllString(args[1].(StrV).s, args[2].(StrV).s)})
	case brPath + ".NewReader":
		iv, ok := args[0].(Iface)
		if ok && iv.typ != nil && x.isStreamType(iv.typ) {
			return one(iv)
		}
		panic(unsupported("bitreader over %s", showVal(args[0])))
	case "io.ReadFull":
		obj, s := x.streamOf(st, args[0])
		if s == nil {
			panic(unsupported("io.ReadFull of %s", showVal(args[0])))
		}
		return x.streamReadFull(st, x.dummyFrame(fn), obj, args[1].(Slice), dummyInstr{}), true
	case "io.ReadAtLeast":
		obj, s := x.streamOf(st, args[0])
		d := args[1].(Slice)
		mn := args[2].(*Term)
		if s == nil {
			panic(unsupported("io.ReadAtLeast of %s", showVal(args[0])))
		}
		if st.simp(c.Eq(mn, d.len)) != c.tt && mn != d.len {
			if x.solver.Check(st.literals(), c.Not(c.Eq(mn, d.len)), 4000) != Unsat {
				panic(unsupported("io.ReadAtLeast with min != len"))
			}
		}
		return x.streamReadFull(st, x.dummyFrame(fn), obj, d, dummyInstr{}), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		if iv, ok := args[0].(Iface); ok && iv.typ != nil {
			if obj, s := x.streamOf(st, iv); s != nil {
				pos := x.alignPos(st, s.pos)
				n := c.LShr(c.Sub(s.len, pos), c.Int(3))
				o := st.alloc(&Arr{n: -1, node: c.arrStream(s.name, pos)})
				x.moveStream(st, obj, s, s.len)
				isEOF := c.Eq(s.endErr, x.eofErr())
				return one(Slice{Ptr{obj: o}, c.Int(0), n, n}, c.Ite(isEOF, x.nilErr(), s.endErr))
			}
			if p, ok := iv.v.(Ptr); ok {
				if b, ok := st.load(p, nil).(*BufV); ok {
					o := st.alloc(&Arr{n: -1, node: b.node})
					st.store(p, &BufV{node: c.arrConst(c.Const(0, 8)), off: c.Int(0), n: c.Int(0)})
					return one(Slice{Ptr{obj: o}, b.off, b.n, b.n}, x.nilErr())
				}
			}
		}
		panic(unsupported("ReadAll of %s", showVal(args[0])))
	}
	if strings.HasPrefix(name, "bytes.Buffer.") {
		return x.bufferCall(st, fn, args)
	}
	return nil, false
}

// Buffers grow only by Write; a Buffer is a FIFO of bytes.
func (x *Exec) bufferCall(st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	c := x.c
	p := args[0].(Ptr)
	if p.obj == 0 {
		panic(unsupported("nil buffer"))
	}
	b, ok := st.load(p, nil).(*BufV)
	if !ok {
		panic(unsupported("buffer %T", st.load(p, nil)))
	}
	one := func(v ...Value) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	switch fn.Name() {
	case "Len":
		return one(b.n)
	case "Reset":
		st.store(p, &BufV{node: c.arrConst(c.Const(0, 8)), off: c.Int(0), n: c.Int(0)})
		return one()
	case "Write":
		s := args[1].(Slice)
		if s.arr.obj == 0 || s.len.op == OConst && s.len.k == 0 {
			return one(s.len, x.nilErr())
		}
		sn, sb := x.node(st, s)
		n := &ANode{c: c, kind: ACopy, w: 8, base: b.node, off: c.Add(b.off, b.n), src: sn, soff: c.Add(sb, s.off), n: s.len}
		st.store(p, &BufV{node: n, off: b.off, n: c.Add(b.n, s.len)})
		return one(s.len, x.nilErr())
	case "WriteByte":
		n := b.node.store(c.Add(b.off, b.n), args[1].(*Term))
		st.store(p, &BufV{node: n, off: b.off, n: c.Add(b.n, c.Int(1))})
		return one(x.nilErr())
	case "Bytes":
		o := st.alloc(&Arr{n: -1, node: b.node})
		return one(Slice{Ptr{obj: o}, b.off, b.n, b.n})
	case "Truncate":
		if t := args[1].(*Term); t.op == OConst && t.k == 0 {
			st.store(p, &BufV{node: c.arrConst(c.Const(0, 8)), off: c.Int(0), n: c.Int(0)})
			return one()
		}
	case "Read":
		s := args[1].(Slice)
		var outs []Outcome
		empty := st.simp(c.Eq(b.n, c.Int(0)))
		e, ne := true, true
		if empty == c.tt {
			ne = false
		} else if empty == c.ff {
			e = false
		} else {
			e, ne = x.feasible(st, empty)
		}
		if e {
			s1 := st
			if ne {
				s1 = st.clone()
			}
			if s1.assume(empty) {
				lz := s1.simp(c.Eq(s.len, c.Int(0)))
				outs = append(outs, Outcome{s1, []Value{c.Int(0), c.Ite(lz, x.nilErr(), x.eofErr())}})
			}
		}
		if ne && st.assume(c.Not(empty)) {
			n := st.simpVal(c.Ite(st.simp(c.Ult(s.len, b.n)), s.len, b.n))
			if s.arr.obj != 0 {
				dn, db := x.node(st, s)
				x.setNode(st, s, &ANode{c: c, kind: ACopy, w: 8, base: dn, off: c.Add(db, s.off), src: b.node, soff: b.off, n: n})
			}
			st.store(p, &BufV{node: b.node, off: c.Add(b.off, n), n: c.Sub(b.n, n)})
			outs = append(outs, Outcome{st, []Value{n, x.nilErr()}})
		}
		return outs, true
	}
	panic(unsupported("bytes.Buffer.%s", fn.Name()))
}

type dummyInstr struct{ ssa.Instruction }

func (dummyInstr) Pos() token.Pos { return 0 }

func (x *Exec) dummyFrame(fn *ssa.Function) *Frame { return &Frame{fn: fn} }

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// ---- channels ----

func (x *Exec) chanOf(st *State, v Value) (int, *ChanV) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("channel %T", v))
	}
	if p.obj == 0 {
		panic(unsupported("nil channel"))
	}
	ch, ok := st.get(p.obj).(*ChanV)
	if !ok {
		panic(unsupported("channel object %T", st.get(p.obj)))
	}
	return p.obj, ch
}

func (x *Exec) send(st *State, fr *Frame, t *ssa.Send) ([]Outcome, bool) {
	_, ch := x.chanOf(st, x.eval(st, fr, t.Chan))
	if !x.require(st, fr, x.c.Not(ch.closed), "send on closed channel", t) {
		return nil, true
	}
	f, ok := ch.onSend.(Func)
	if !ok {
		panic(unsupported("send on a channel nobody observes in %s", fr.fn))
	}
	v := x.eval(st, fr, t.X)
	outs := x.call(st, f.fn, []Value{v}, f.binds, false)
	for i := range outs {
		outs[i].ret = nil
	}
	return outs, len(outs) == 0
}

func (x *Exec) recv(st *State, fr *Frame, t *ssa.UnOp) ([]Outcome, bool) {
	_, ch := x.chanOf(st, x.eval(st, fr, t.X))
	f, ok := ch.onRecv.(Func)
	if !ok {
		panic(unsupported("receive from a channel nobody feeds in %s", fr.fn))
	}
	outs := x.call(st, f.fn, nil, f.binds, false)
	for i := range outs {
		if !t.CommaOk {
			outs[i].ret = outs[i].ret[:1]
		}
	}
	return outs, len(outs) == 0
}

func (x *Exec) closeChan(st *State, fr *Frame, v Value, in ssa.Instruction) []Outcome {
	obj, ch := x.chanOf(st, v)
	if !x.require(st, fr, x.c.Not(ch.closed), "close of closed channel", in) {
		return nil
	}
	n := *ch
	n.closed = x.c.tt
	if x.rec != nil {
		x.rec.write(Ptr{obj: obj})
	}
	st.set(obj, &n)
	if f, ok := ch.onClose.(Func); ok {
		outs := x.call(st, f.fn, nil, f.binds, false)
		for i := range outs {
			outs[i].ret = nil
		}
		return outs
	}
	return []Outcome{{st, nil}}
}

// ---- the vc package ----

func ifaceVal(v Value) Value {
	if iv, ok := v.(Iface); ok {
		return iv.v
	}
	return v
}

func (x *Exec) variadic(st *State, v Value) []Value {
	s := v.(Slice)
	if s.arr.obj == 0 {
		return nil
	}
	n := int(s.len.k)
	if vec, ok := x.vecOf(st, s); ok {
		return vec.e[s.off.k : int(s.off.k)+n]
	}
	nd, b := x.node(st, s)
	r := make([]Value, n)
	for i := range r {
		r[i] = nd.sel(x.c.Add(b, x.c.Add(s.off, x.c.Int(int64(i)))))
	}
	return r
}

func (x *Exec) scalar(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("vc: scalar argument expected, got %T", v))
	}
	return t
}

func (x *Exec) vcCall(st *State, fn *ssa.Function, args []Value, pure bool) ([]Outcome, bool) {
	c := x.c
	one := func(v ...Value) ([]Outcome, bool) { return []Outcome{{st, v}}, true }
	n := fn.Name()
	switch n {
	case "Native":
		return one(c.ff)
	case "U8":
		return one(c.Var(x.argName(args[0]), 8))
	case "U16":
		return one(c.Var(x.argName(args[0]), 16))
	case "U32", "I32", "Err":
		return one(c.Var(x.argName(args[0]), 32))
	case "U64", "I64", "Int", "Uint":
		return one(c.Var(x.argName(args[0]), 64))
	case "Bool":
		return one(c.Var(x.argName(args[0]), 0))
	case "IntRange":
		v := c.Var(x.argName(args[0]), 64)
		lo, hi := args[1].(*Term), args[2].(*Term)
		if !st.assume(c.And(c.Sle(lo, v), c.Sle(v, hi))) {
			return nil, true
		}
		if lo.op == OConst && hi.op == OConst && sext64(lo.k, 64) >= 0 {
			st.bound(v, lo.k, hi.k)
		}
		return one(v)
	case "Any":
		p := ifaceVal(args[1]).(Ptr)
		pt := args[1].(Iface).typ.(*types.Pointer)
		st.store(p, x.anyKeep(st, st.load(p, pt.Elem()), x.argName(args[0]), pt.Elem()))
		return one()
	case "Fresh":
		p := ifaceVal(args[1]).(Ptr)
		pt := args[1].(Iface).typ.(*types.Pointer)
		st.store(p, x.anyKeep(st, st.load(p, pt.Elem()), c.FreshName(x.argName(args[0])), pt.Elem()))
		return one()
	case "ByteSlice", "Int32Slice":
		w := 8
		if n == "Int32Slice" {
			w = 32
		}
		ln := args[1].(*Term)
		o := st.alloc(&Arr{n: -1, node: c.arrUF(x.argName(args[0]), w)})
		return one(Slice{Ptr{obj: o}, c.Int(0), ln, ln})
	case "NewStream":
		nm := x.argName(args[0])
		ln := c.Var(nm+".len", 64)
		off := c.ZExt(c.Extract(args[1].(*Term), 2, 0), 64)
		e := c.Var(nm+".err", 32)
		ok := st.assume(c.And(c.Ult(ln, c.Int(1<<40)), c.Eq(c.Extract(ln, 2, 0), c.Const(0, 3)), c.Ule(off, ln), c.Not(c.Eq(e, x.nilErr()))))
		if !ok {
			return nil, true
		}
		o := st.alloc(&StreamV{name: nm, pos: off, len: ln, endErr: e})
		return one(Ptr{obj: o})
	case "Pos":
		_, s := x.vcStream(st, args[0])
		return one(s.pos)
	case "Len":
		_, s := x.vcStream(st, args[0])
		return one(s.len)
	case "EndErr":
		_, s := x.vcStream(st, args[0])
		return one(s.endErr)
	case "SetPos":
		o, s := x.vcStream(st, args[0])
		x.moveStream(st, o, s, args[1].(*Term))
		return one()
	case "Bits":
		_, s := x.vcStream(st, args[0])
		k := st.simpVal(args[2].(*Term))
		if k.op != OConst {
			// value of a symbolic number of bits: case split in the term
			lo, hi := st.rng(k)
			if hi > 64 {
				panic(unsupported("vc.Bits with unbounded count"))
			}
			w := 64
			if hi <= 32 {
				w = 32 // as reads of 32 bits
			}
			r := c.Const(0, w)
			for j := lo; j <= hi; j++ {
				var v *Term = c.Const(0, w)
				if j > 0 {
					v = c.ZExt(c.SBits(s.name, args[1].(*Term), int(j)), w)
				}
				r = c.Ite(c.Eq(k, c.Const(j, k.w)), v, r)
			}
			return one(c.ZExt(r, 64))
		}
		if k.k == 0 {
			return one(c.Const(0, 64))
		}
		if k.k > 64 {
			return one(c.Const(0, 64))
		}
		return one(c.ZExt(c.SBits(s.name, args[1].(*Term), int(k.k)), 64))
	case "Assume":
		if x.invMode != 0 {
			panic(unsupported("vc.Assume in an invariant"))
		}
		if !st.assume(args[0].(*Term)) {
			return nil, true
		}
		if x.solver != nil && x.solver.Check(st.literals(), c.tt, 3000) == Unsat {
			return nil, true
		}
		return one()
	case "Assert":
		x.prove(st, args[0].(*Term), x.argName(args[1]), "contract")
		if x.quiet == 0 || true {
			if !st.assume(args[0].(*Term)) {
				return nil, true
			}
		}
		return one()
	case "AssertAll":
		// for all i in [0, n): f(i)
		x.forall(st, args, false)
		return one()
	case "InverseDCT":
		vec := func(v Value) (ts []*Term) {
			sl := v.(Slice)
			t := types.Typ[types.Int32]
			for i := int64(0); i < 64; i++ {
				ts = append(ts, st.load(x.elemPtr(sl.arr, c.Int(i), t), t).(*Term))
			}
			return
		}
		var k []int64
		for _, v := range args[3:] {
			k = append(k, sext64(v.(*Term).k, 64))
		}
		if x.quiet == 0 && !pure {
			x.inverseDCT(st, x.argName(args[0]), vec(args[1]), vec(args[2]), k[0], k[1], k[2], k[3])
		}
		return one()
	case "Cover":
		if x.quiet == 0 && !pure {
			nm := x.argName(args[0])
			if !x.covers[nm] {
				x.covers[nm] = x.solver.Check(st.literals(), c.tt, 3000) != Unsat
			}
		}
		return one()
	case "Inv":
		cond := args[0].(*Term)
		switch x.invMode {
		case 1:
			x.prove(st, cond, "invariant "+x.invWhere+": "+x.argName(args[1]), "loop")
			if !st.assume(cond) {
				return nil, true
			}
		case 2:
			if !st.assume(cond) {
				return nil, true
			}
		default:
			panic(unsupported("vc.Inv outside an invariant"))
		}
		return one()
	case "InvSeq":
		// InvSeq(s []byte, n int, f func(i int) byte, label): s[i] == f(i) for i < n
		s := args[0].(Slice)
		cnt := args[1].(*Term)
		f := args[2].(Func)
		eval := x.pureFn(st, f)
		switch x.invMode {
		case 1:
			i := c.Fresh("i", 64)
			s2 := st.clone()
			if s2.assume(c.Ult(i, cnt)) && s.arr.obj != 0 {
				nd, b := x.node(st, s)
				x.prove(s2, c.Eq(nd.sel(c.Add(b, c.Add(s.off, i))), eval(i)), "invariant "+x.invWhere+": "+x.argName(args[3]), "loop")
			}
		case 2:
			if s.arr.obj == 0 {
				break
			}
			nd, b := x.node(st, s)
			src := &ANode{c: c, kind: ALambda, w: nd.w, fn: eval}
			x.setNode(st, s, &ANode{c: c, kind: ACopy, w: nd.w, base: nd, off: c.Add(b, s.off), src: src, soff: c.Int(0), n: cnt})
		}
		return one()
	case "InvBuf":
		// InvBuf(b *bytes.Buffer, n int, f func(i int) byte, label): the buffer holds exactly f(0..n-1)
		p := args[0].(Ptr)
		b := st.load(p, nil).(*BufV)
		cnt := args[1].(*Term)
		eval := x.pureFn(st, args[2].(Func))
		switch x.invMode {
		case 1:
			x.prove(st, c.Eq(b.n, cnt), "invariant "+x.invWhere+": "+x.argName(args[3])+" (length)", "loop")
			i := c.Fresh("i", 64)
			s2 := st.clone()
			if s2.assume(c.Ult(i, cnt)) {
				x.prove(s2, c.Eq(b.node.sel(c.Add(b.off, i)), eval(i)), "invariant "+x.invWhere+": "+x.argName(args[3]), "loop")
			}
		case 2:
			st.store(p, &BufV{node: &ANode{c: c, kind: ALambda, w: 8, fn: eval}, off: c.Int(0), n: cnt})
		}
		return one()
	case "SetBuf":
		// SetBuf(b *bytes.Buffer, n int, f func(i int) byte)
		p := args[0].(Ptr)
		st.store(p, &BufV{node: &ANode{c: c, kind: ALambda, w: 8, fn: x.pureFn(st, args[2].(Func))}, off: c.Int(0), n: args[1].(*Term)})
		return one()
	case "BufLen":
		return one(st.load(args[0].(Ptr), nil).(*BufV).n)
	case "BufAt":
		b := st.load(args[0].(Ptr), nil).(*BufV)
		return one(b.node.sel(c.Add(b.off, args[1].(*Term))))
	case "SetSeq":
		// SetSeq(s []byte, off, n int, f func(i int) byte): s[off+i] = f(i)
		s := args[0].(Slice)
		if s.arr.obj != 0 {
			nd, b := x.node(st, s)
			src := &ANode{c: c, kind: ALambda, w: nd.w, fn: x.pureFn(st, args[3].(Func))}
			x.setNode(st, s, &ANode{c: c, kind: ACopy, w: nd.w, base: nd, off: c.Add(b, c.Add(s.off, args[1].(*Term))), src: src, soff: c.Int(0), n: args[2].(*Term)})
		}
		return one()
	case "SetElems", "InvElems":
		return x.elemsCall(st, fn, n, args)
	case "Iter":
		return one(x.iter)
	case "Dec":
		if x.invMode != 0 {
			x.decNew = append(x.decNew, args[0].(*Term))
		}
		return one()
	case "UF", "UFU8", "UFBool", "UFInt", "UFU32", "UFErr":
		w := map[string]int{"UF": 64, "UFInt": 64, "UFU8": 8, "UFBool": 0, "UFU32": 32, "UFErr": 32}[n]
		var as []*Term
		for _, a := range x.variadic(st, args[1]) {
			t := x.scalar(a)
			as = append(as, t)
		}
		return one(c.UF(x.argName(args[0]), w, as...))
	case "Freeze":
		p := ifaceVal(args[0])
		if s, ok := p.(Slice); ok {
			p = s.arr
		}
		if st.frozen == nil {
			st.frozen = map[int]bool{}
		}
		st.frozen[p.(Ptr).obj] = true
		return one()
	case "OnSend", "OnRecv", "OnClose":
		obj, ch := x.chanOf(st, ifaceVal(args[0]))
		nc := *ch
		f := ifaceVal(args[1])
		switch n {
		case "OnSend":
			nc.onSend = f
		case "OnRecv":
			nc.onRecv = f
		default:
			nc.onClose = f
		}
		if x.rec != nil {
			x.rec.write(Ptr{obj: obj})
		}
		st.set(obj, &nc)
		return one()
	case "IsClosed":
		_, ch := x.chanOf(st, ifaceVal(args[0]))
		return one(ch.closed)
	case "RunSpawned":
		sp := st.spawn
		st.spawn = nil
		outs := []Outcome{{st, nil}}
		for _, s := range sp {
			g := s.(spawned)
			var next []Outcome
			for _, o := range outs {
				f := g.fn.(Func)
				for _, r := range x.call(o.st, f.fn, g.args, f.binds, false) {
					next = append(next, Outcome{r.st, nil})
				}
			}
			outs = next
		}
		return outs, true
	case "IsWindow":
		// IsWindow(p, q, n): p begins at q[n]
		a, b, k := args[0].(Slice), args[1].(Slice), args[2].(*Term)
		if !samePtr(a.arr, b.arr) {
			return one(c.ff)
		}
		return one(c.And(c.Eq(a.off, c.Add(b.off, k)), c.Sle(c.Int(0), k), c.Sle(k, b.len)))
	case "IsTail":
		// IsTail(p, q, n): p is q[n:]
		a, b, k := args[0].(Slice), args[1].(Slice), args[2].(*Term)
		if !samePtr(a.arr, b.arr) {
			return one(c.ff)
		}
		return one(c.And(c.Eq(a.off, c.Add(b.off, k)), c.Eq(a.len, c.Sub(b.len, k)), c.Eq(a.cap, c.Sub(b.cap, k))))
	case "NotNil":
		p, ok := ifaceVal(args[0]).(Ptr)
		return one(c.Bool(ok && p.obj != 0))
	case "SameObj":
		a, b := ifaceVal(args[0]), ifaceVal(args[1])
		if sa, ok := a.(Slice); ok {
			a = sa.arr
		}
		if sb, ok := b.(Slice); ok {
			b = sb.arr
		}
		return one(c.Bool(a.(Ptr).obj == b.(Ptr).obj))
	case "AllowPanics":
		x.panicsOK = true
		return one()
	case "ErrNew":
		return one(x.errID("ghost " + x.argName(args[0])))
	case "Ite64":
		return one(c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	case "IteInt", "IteU32", "IteI32", "IteU8", "IteErr":
		return one(c.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	case "Case":
		// the two cases are verified separately from here on
		yes, no := x.fork(st, args[0].(*Term))
		var outs []Outcome
		if yes != nil {
			outs = append(outs, Outcome{yes, []Value{c.tt}})
		}
		if no != nil {
			outs = append(outs, Outcome{no, []Value{c.ff}})
		}
		return outs, true
	case "CaseInt":
		v, lo, hi := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if lo.op != OConst || hi.op != OConst {
			panic(unsupported("CaseInt with symbolic bounds"))
		}
		var outs []Outcome
		for k := sext64(lo.k, 64); k <= sext64(hi.k, 64) && st != nil; k++ {
			var yes *State
			yes, st = x.fork(st, c.Eq(v, c.Int(k)))
			if yes != nil {
				outs = append(outs, Outcome{yes, []Value{c.Int(k)}})
			}
		}
		if st != nil && !x.prove(st, c.ff, "CaseInt covers every case", "") {
			return outs, true
		}
		return outs, true
	case "Debug":
		if x.quiet == 0 {
			for _, a := range x.variadic(st, args[1]) {
				fmt.Printf("DEBUG %s %s\n", x.argName(args[0]), showVal(a))
			}
		}
		return one()
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("vc.%s", n))
	}
	return nil, false
}

// pureFn turns a Go closure of one index into a term function, evaluated in the given state's heap.
func (x *Exec) pureFn(st *State, f Func) func(*Term) *Term {
	snap := st.clone()
	return func(i *Term) *Term {
		s := snap.clone()
		var arg Value = i
		outs := x.call(s, f.fn, []Value{arg}, f.binds, true)
		if len(outs) != 1 {
			panic(unsupported("specification function with %d outcomes", len(outs)))
		}
		return outs[0].ret[0].(*Term)
	}
}

func (x *Exec) forall(st *State, args []Value, inv bool) {
	c := x.c
	label := x.argName(args[0])
	n := args[1].(*Term)
	f := args[2].(Func)
	i := c.Fresh("i", 64)
	s2 := st.clone()
	if !s2.assume(c.Ult(i, n)) {
		x.prove(s2, c.tt, label, "contract")
		return
	}
	if lo, hi := s2.rng(n); hi > 0 {
		_ = lo
		s2.bound(i, 0, hi-1)
	}
	if x.solver != nil && x.solver.Check(s2.literals(), c.tt, 2000) == Unsat {
		x.prove(s2, c.tt, label, "contract")
		return
	}
	for _, o := range x.call(s2, f.fn, []Value{i}, f.binds, true) {
		x.prove(o.st, o.ret[0].(*Term), label, "contract")
	}
}

// anyKeep makes the scalars of a value arbitrary and keeps its references.
func (x *Exec) anyKeep(st *State, cur Value, name string, t types.Type) Value {
	c := x.c
	switch v := cur.(type) {
	case *Term:
		return c.Var(name, v.w)
	case *StructV:
		s := t.Underlying().(*types.Struct)
		n := &StructV{f: make([]Value, len(v.f))}
		for i := range v.f {
			n.f[i] = x.anyKeep(st, v.f[i], name+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return n
	case *Arr:
		return &Arr{n: v.n, node: c.arrUF(name, v.node.w)}
	case *Vec:
		n := &Vec{e: make([]Value, len(v.e))}
		for i := range v.e {
			n.e[i] = x.anyKeep(st, v.e[i], fmt.Sprintf("%s[%d]", name, i), t.Underlying().(*types.Array).Elem())
		}
		return n
	case *BufV:
		return x.any(name, t)
	}
	return cur
}
