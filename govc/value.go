package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// PE is one step of a path inside an object.
type PE struct {
	field int   // >=0: struct field or Vec index
	off   *Term // non-nil: offset (in scalars) inside a flat array
}

type Ptr struct {
	obj  int // 0 = nil
	path []PE
}

type Slice struct {
	arr           Ptr // container: Arr or Vec (obj 0 = nil slice)
	off, len, cap *Term
}

type Iface struct {
	typ types.Type // nil = nil interface
	v   Value
}

type Func struct {
	fn    *ssa.Function
	binds []Value
	hook  string
}

type StructV struct{ f []Value }

// Arr is an immutable array of scalars.
type Arr struct {
	n    int // length when fixed, -1 when only bounded by the slice/cap term
	node *ANode
}

type Vec struct{ e []Value }

type MapV struct {
	keys []string
	m    map[string]Value
}

type Tuple []Value

type StrV struct{ s string } // concrete string

// BufV models bytes.Buffer as a FIFO: content bytes [off, off+n) of node.
type BufV struct {
	node   *ANode
	off, n *Term
}

// StreamV models a bit stream.
type StreamV struct {
	name   string
	pos    *Term // bits
	len    *Term // bits
	endErr *Term
	seq    bool
}

// ChanV models a channel by its hooks.
type ChanV struct {
	onSend, onRecv, onClose Value // Func
	closed                  *Term
}

type Opaque struct{ name string }

// ---- symbolic arrays ----

type AKind uint8

const (
	AUF AKind = iota
	AConstK
	AOver
	AStore
	ACopy
	AStreamK
	AIte
	ALambda
)

type ANode struct {
	c        *Ctx
	kind     AKind
	w        int
	name     string
	def      *Term
	base     *ANode
	cells    map[uint64]*Term
	idx, val *Term
	off, n   *Term // ACopy: dst offset, count
	src      *ANode
	soff     *Term
	cond     *Term
	a, b     *ANode
	pos      *Term // AStream
	memo     map[*Term]*Term
	fn       func(*Term) *Term
}

func (c *Ctx) arrUF(name string, w int) *ANode { return &ANode{c: c, kind: AUF, w: w, name: name} }
func (c *Ctx) arrConst(def *Term) *ANode {
	return &ANode{c: c, kind: AConstK, w: def.w, def: def}
}
func (c *Ctx) arrStream(name string, pos *Term) *ANode {
	return &ANode{c: c, kind: AStreamK, w: 8, name: name, pos: pos}
}

func (n *ANode) sel(i *Term) *Term {
	if n.kind == AConstK {
		return n.def
	}
	if n.memo == nil {
		n.memo = map[*Term]*Term{}
	}
	if r, ok := n.memo[i]; ok {
		return r
	}
	r := n.sel1(i)
	n.memo[i] = r
	return r
}

func (n *ANode) sel1(i *Term) *Term {
	c := n.c
	switch n.kind {
	case AUF:
		return c.UF(n.name, n.w, i)
	case AOver:
		if i.op == OConst {
			if v, ok := n.cells[i.k]; ok {
				return v
			}
			return n.base.sel(i)
		}
		r := n.base.sel(i)
		keys := make([]uint64, 0, len(n.cells))
		for k := range n.cells {
			if k >= i.lo && k <= i.hi {
				keys = append(keys, k)
			}
		}
		sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
		// group equal values
		groups := map[*Term][]*Term{}
		var order []*Term
		for _, k := range keys {
			v := n.cells[k]
			if v == r {
				continue
			}
			e := c.Eq(i, c.Const(k, 64))
			if e == c.ff {
				continue
			}
			if groups[v] == nil {
				order = append(order, v)
			}
			groups[v] = append(groups[v], e)
		}
		for j := len(order) - 1; j >= 0; j-- {
			v := order[j]
			r = c.Ite(c.Or(groups[v]...), v, r)
		}
		return r
	case AStore:
		return c.Ite(c.Eq(i, n.idx), n.val, n.base.sel(i))
	case ACopy:
		d := c.Sub(i, n.off)
		in := c.Ult(d, n.n)
		if in == c.ff {
			return n.base.sel(i)
		}
		s := n.src.sel(c.Add(d, n.soff))
		if in == c.tt {
			return s
		}
		return c.Ite(in, s, n.base.sel(i))
	case AStreamK:
		return c.SBits(n.name, c.Add(n.pos, c.MulK(i, 8)), 8)
	case ALambda:
		return n.fn(i)
	case AIte:
		return c.Ite(n.cond, n.a.sel(i), n.b.sel(i))
	}
	panic("sel")
}

func (n *ANode) store(i, v *Term) *ANode {
	if i.op == OConst {
		if n.kind == AOver {
			m := make(map[uint64]*Term, len(n.cells)+1)
			for k, x := range n.cells {
				m[k] = x
			}
			m[i.k] = v
			return &ANode{c: n.c, kind: AOver, w: n.w, base: n.base, cells: m}
		}
		return &ANode{c: n.c, kind: AOver, w: n.w, base: n, cells: map[uint64]*Term{i.k: v}}
	}
	if n.kind == AStore && n.idx == i {
		n = n.base
	}
	return &ANode{c: n.c, kind: AStore, w: n.w, base: n, idx: i, val: v}
}

func (n *ANode) copyFrom(off *Term, src *ANode, soff, cnt *Term) *ANode {
	if cnt.op == OConst && cnt.k <= 64 {
		vals := make([]*Term, cnt.k)
		for j := range vals {
			vals[j] = src.sel(n.c.Add(soff, n.c.Int(int64(j))))
		}
		r := n
		for j := range vals {
			r = r.store(n.c.Add(off, n.c.Int(int64(j))), vals[j])
		}
		return r
	}
	return &ANode{c: n.c, kind: ACopy, w: n.w, base: n, off: off, src: src, soff: soff, n: cnt}
}

func (c *Ctx) mergeNode(cond *Term, a, b *ANode) *ANode {
	if a == b {
		return a
	}
	if a.kind == AConstK && b.kind == AConstK && a.def == b.def {
		return a
	}
	if a.kind == AUF && b.kind == AUF && a.name == b.name {
		return a
	}
	ab, bb := a, b
	var ac, bc map[uint64]*Term
	if a.kind == AOver {
		ab, ac = a.base, a.cells
	}
	if b.kind == AOver {
		bb, bc = b.base, b.cells
	}
	if ab == bb {
		m := map[uint64]*Term{}
		get := func(x *ANode, k uint64) *Term { return x.sel(c.Const(k, 64)) }
		for k := range ac {
			m[k] = c.Ite(cond, get(a, k), get(b, k))
		}
		for k := range bc {
			m[k] = c.Ite(cond, get(a, k), get(b, k))
		}
		return &ANode{c: c, kind: AOver, w: a.w, base: ab, cells: m}
	}
	return &ANode{c: c, kind: AIte, w: a.w, cond: cond, a: a, b: b}
}

// ---- types ----

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	return types.Identical(t, errorType)
}

func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

// scalarWidth: width of a scalar type, ok=false for others. Bool is 0.
func scalarWidth(t types.Type) (w int, ok bool) {
	if isErrorType(t) {
		return 32, true
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// flat returns the scalar leaf type and total count of a (possibly nested) array of scalars.
func flat(t types.Type) (leaf types.Type, n int, ok bool) {
	if a, isa := t.Underlying().(*types.Array); isa {
		l, m, ok := flat(a.Elem())
		return l, m * int(a.Len()), ok
	}
	if _, ok := scalarWidth(t); ok {
		return t, 1, true
	}
	return nil, 0, false
}

func (x *Exec) zero(t types.Type) Value {
	c := x.c
	if isBuffer(t) {
		return &BufV{node: c.arrConst(c.Const(0, 8)), off: c.Int(0), n: c.Int(0)}
	}
	if w, ok := scalarWidth(t); ok {
		if w == 0 {
			return c.ff
		}
		return c.Const(0, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV{""}
		}
		return Opaque{"zero " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := c.Int(0)
		return Slice{Ptr{}, z, z, z}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if leaf, n, ok := flat(t); ok {
			return &Arr{n: n, node: c.arrConst(x.zero(leaf).(*Term))}
		}
		v := &Vec{e: make([]Value, u.Len())}
		for i := range v.e {
			v.e[i] = x.zero(u.Elem())
		}
		return v
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of %s", t))
}

// any builds an arbitrary value of scalar/array/struct-of-those type. Pointers, slices, funcs and interfaces are nil.
func (x *Exec) any(name string, t types.Type) Value {
	c := x.c
	if isBuffer(t) {
		n := c.Var(name+".n", 64)
		return &BufV{node: c.arrUF(name+".data", 8), off: c.Int(0), n: n}
	}
	if w, ok := scalarWidth(t); ok {
		return c.Var(name, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.any(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		if leaf, n, ok := flat(t); ok {
			w, _ := scalarWidth(leaf)
			return &Arr{n: n, node: c.arrUF(name, w)}
		}
		v := &Vec{e: make([]Value, u.Len())}
		for i := range v.e {
			v.e[i] = x.any(fmt.Sprintf("%s[%d]", name, i), u.Elem())
		}
		return v
	}
	return x.zero(t)
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) unsup { return unsup{fmt.Sprintf(f, a...)} }

func showVal(v Value) string {
	switch t := v.(type) {
	case *Term:
		return t.String()
	case Ptr:
		return fmt.Sprintf("&%d%v", t.obj, t.path)
	case Slice:
		return fmt.Sprintf("[%d%v off=%v len=%v]", t.arr.obj, t.arr.path, t.off, t.len)
	case Iface:
		if t.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", t.typ, showVal(t.v))
	case *StructV:
		s := "{"
		for _, f := range t.f {
			s += showVal(f) + ", "
		}
		return s + "}"
	case StrV:
		return t.s
	}
	return fmt.Sprintf("%T", v)
}
