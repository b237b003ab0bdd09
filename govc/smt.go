package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

func q(name string) string { return "|" + strings.ReplaceAll(name, "|", "!") + "|" }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emitter writes definitions of terms once per solver session.
type emitter struct {
	done     map[*Term]string
	decl     map[string]string
	abstract bool // products and divisions of symbolic operands as uninterpreted functions
	out      *strings.Builder
	abstUsed bool
}

func newEmitter(abstract bool) *emitter {
	return &emitter{done: map[*Term]string{}, decl: map[string]string{}, abstract: abstract, out: &strings.Builder{}}
}

func isHard(t *Term) bool {
	switch t.op {
	case OMul:
		return true
	case OUDiv, OURem, OSDiv, OSRem:
		return true
	}
	return false
}

func bvconst(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (e *emitter) declare(name string, args []int, w int) {
	sig := fmt.Sprint(args, w)
	if d, ok := e.decl[name]; ok {
		if d != sig {
			panic(unsupported("two symbols are named %s", name))
		}
		return
	}
	e.decl[name] = sig
	var as []string
	for _, a := range args {
		as = append(as, sortOf(a))
	}
	fmt.Fprintf(e.out, "(declare-fun %s (%s) %s)\n", q(name), strings.Join(as, " "), sortOf(w))
}

// ref returns an expression denoting t, emitting definitions as needed.
func (e *emitter) ref(t *Term) string {
	if s, ok := e.done[t]; ok {
		return s
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := e.done[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if _, ok := e.done[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		s := e.expr(x)
		if len(x.args) > 0 && x.op != ONot {
			n := fmt.Sprintf("t%d", x.id)
			fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", n, sortOf(x.w), s)
			s = n
		}
		e.done[x] = s
	}
	return e.done[t]
}

func (e *emitter) expr(t *Term) string {
	arg := func(i int) string { return e.done[t.args[i]] }
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return bvconst(t.k, t.w)
	case OVar:
		e.declare(t.name, nil, t.w)
		return q(t.name)
	case OUF:
		var ws []int
		var as []string
		for i, a := range t.args {
			ws = append(ws, a.w)
			as = append(as, arg(i))
		}
		e.declare(t.name, ws, t.w)
		if len(as) == 0 {
			return q(t.name)
		}
		return fmt.Sprintf("(%s %s)", q(t.name), strings.Join(as, " "))
	case OSBits:
		e.declare(t.name, []int{64}, 1)
		p := t.args[0]
		var parts []string
		for i := 0; i < t.w; i++ {
			var pos string
			if p.op == OConst {
				pos = bvconst(p.k+uint64(i), 64)
			} else if p.op == OLin {
				// emit position sums in one canonical shape: base + const
				base := e.linBase(p)
				k := p.k + uint64(i)
				if k == 0 {
					pos = base
				} else {
					pos = fmt.Sprintf("(bvadd %s %s)", base, bvconst(k, 64))
				}
			} else if i == 0 {
				pos = arg(0)
			} else {
				pos = fmt.Sprintf("(bvadd %s %s)", arg(0), bvconst(uint64(i), 64))
			}
			parts = append(parts, fmt.Sprintf("(%s %s)", q(t.name), pos))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(concat " + strings.Join(parts, " ") + ")"
	case OLin:
		b := e.linBase(t)
		if t.k == 0 {
			return b
		}
		return fmt.Sprintf("(bvadd %s %s)", b, bvconst(t.k, t.w))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.i1, t.i2, arg(0))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, arg(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, arg(0))
	}
	if e.abstract && isHard(t) {
		e.abstUsed = true
		n := fmt.Sprintf("%s!%d", opNames[t.op], t.w)
		e.declare(n, []int{t.w, t.w}, t.w)
		return fmt.Sprintf("(%s %s %s)", q(n), arg(0), arg(1))
	}
	var as []string
	for i := range t.args {
		as = append(as, arg(i))
	}
	return fmt.Sprintf("(%s %s)", opNames[t.op], strings.Join(as, " "))
}

func (e *emitter) linBase(t *Term) string {
	var as []string
	for i, a := range t.args {
		s := e.done[a]
		switch {
		case t.coefs[i] == 1:
		case t.coefs[i] == mask(t.w):
			s = "(bvneg " + s + ")"
		default:
			cf := t.coefs[i]
			neg := false
			if cf > mask(t.w)>>1 {
				cf = -cf & mask(t.w)
				neg = true
			}
			if cf&(cf-1) == 0 {
				n := 0
				for cf>>uint(n) != 1 {
					n++
				}
				s = fmt.Sprintf("(bvshl %s %s)", s, bvconst(uint64(n), t.w))
			} else {
				s = fmt.Sprintf("(bvmul %s %s)", bvconst(cf, t.w), s)
			}
			if neg {
				s = "(bvneg " + s + ")"
			}
		}
		as = append(as, s)
	}
	if len(as) == 1 {
		return as[0]
	}
	return "(bvadd " + strings.Join(as, " ") + ")"
}

// Solver is one incremental z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	em    *emitter
	stack []*Term
	dead  bool
	stats *Stats
}

type Stats struct {
	mu       sync.Mutex
	Queries  int
	Time     time.Duration
	ByEngine map[string]int
}

func (s *Stats) add(engine string, d time.Duration, discharged bool) {
	s.mu.Lock()
	s.Queries++
	s.Time += d
	if discharged {
		s.ByEngine[engine]++
	}
	s.mu.Unlock()
}

func NewSolver(stats *Stats) *Solver {
	s := &Solver{stats: stats}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	inp, _ := s.cmd.StdinPipe()
	outp, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.em = newEmitter(true)
	s.stack = nil
	s.dead = false
	s.in.WriteString("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-logic QF_UFBV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) flushDefs() {
	if s.em.out.Len() > 0 {
		s.in.WriteString(s.em.out.String())
		s.em.out.Reset()
	}
}

func (s *Solver) sync(path []*Term) {
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range path[n:] {
		r := s.em.ref(t)
		s.flushDefs()
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

// Check decides path && extra. The incremental solver abstracts products, so Sat may be spurious when em.abstUsed.
func (s *Solver) Check(path []*Term, extra *Term, ms int) Result {
	t0 := time.Now()
	if s.dead {
		s.Close()
		s.start()
	}
	s.sync(path)
	r := s.em.ref(extra)
	s.flushDefs()
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(set-option :timeout %d)\n(check-sat)\n(pop 1)\n", r, ms)
	s.in.Flush()
	type lr struct {
		l   string
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- lr{l, err}
	}()
	res := Unknown
	select {
	case x := <-ch:
		switch strings.TrimSpace(x.l) {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown", "timeout":
		default:
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver says:", x.l, x.err)
			}
			s.dead = true
		}
	case <-time.After(time.Duration(ms+3000) * time.Millisecond):
		s.cmd.Process.Kill()
		s.dead = true
	}
	s.stats.add("z3-new(incremental)", time.Since(t0), res == Unsat)
	return res
}

// OneShot decides the conjunction exactly, racing several solvers; with a model when Sat.
func OneShot(terms []*Term, timeout time.Duration, stats *Stats, wantModel bool, abstract bool) (Result, map[*Term]uint64, string) {
	t0 := time.Now()
	e := newEmitter(abstract)
	var refs []string
	for _, t := range terms {
		refs = append(refs, e.ref(t))
	}
	// leaves for the model
	var leaves []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar, OUF, OSBits:
			leaves = append(leaves, t)
			if t.op == OSBits && t.args[0].op == OConst {
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range terms {
		walk(t)
	}
	// also values of uf arguments and positions
	var want []*Term
	ws := map[*Term]bool{}
	for _, l := range leaves {
		if !ws[l] {
			ws[l] = true
			want = append(want, l)
		}
		for _, a := range l.args {
			if !ws[a] && a.op != OConst {
				ws[a] = true
				want = append(want, a)
			}
		}
	}
	var wr []string
	for _, t := range want {
		wr = append(wr, e.ref(t))
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	sb.WriteString(e.out.String())
	for _, r := range refs {
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	sb.WriteString("(check-sat)\n")
	base := sb.String()
	gv := ""
	if wantModel && len(wr) > 0 {
		gv = "(get-value (" + strings.Join(wr, " ") + "))\n"
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r    Result
		text string
		name string
	}
	ch := make(chan ans, 4)
	run := func(name string, args ...string) {
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		stdin, _ := cmd.StdinPipe()
		stdout, _ := cmd.StdoutPipe()
		if cmd.Start() != nil {
			ch <- ans{Unknown, "", name}
			return
		}
		go func() {
			io.WriteString(stdin, base)
			io.WriteString(stdin, gv)
			stdin.Close()
		}()
		b, _ := io.ReadAll(stdout)
		cmd.Wait()
		s := strings.TrimSpace(string(b))
		switch {
		case strings.HasPrefix(s, "unsat"):
			ch <- ans{Unsat, s, name}
		case strings.HasPrefix(s, "sat"):
			ch <- ans{Sat, s, name}
		default:
			ch <- ans{Unknown, s, name}
		}
	}
	go run("z3-new", "z3-new", "-in", "-smt2")
	go run("z3", "z3", "-in", "-smt2")
	go run("cvc5", "cvc5", "--lang=smt2", "--produce-models", "-q")
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			stats.add(a.name, time.Since(t0), a.r == Unsat)
			var model map[*Term]uint64
			if a.r == Sat && wantModel {
				model = map[*Term]uint64{}
				vals := parseValues(a.text)
				if len(vals) == len(want) {
					for j, t := range want {
						model[t] = vals[j]
					}
				}
			}
			return a.r, model, a.name
		}
	}
	stats.add("none", time.Since(t0), false)
	return Unknown, nil, ""
}

// parseValues reads the value of each pair in a get-value answer, in order.
func parseValues(s string) []uint64 {
	i := strings.Index(s, "(")
	if i < 0 {
		return nil
	}
	toks := tokenize(s[i:])
	// ((expr val) (expr val) ...)
	var out []uint64
	p := 1 // skip outer (
	var skip func()
	skip = func() {
		if toks[p] == "(" {
			p++
			for toks[p] != ")" {
				skip()
			}
			p++
		} else {
			p++
		}
	}
	for p < len(toks) && toks[p] == "(" {
		p++
		skip()
		// value
		v := uint64(0)
		if toks[p] == "(" { // (_ bvN w)
			fmt.Sscanf(toks[p+2], "bv%d", &v)
			skip()
		} else {
			t := toks[p]
			switch {
			case t == "true":
				v = 1
			case t == "false":
			case strings.HasPrefix(t, "#x"):
				fmt.Sscanf(t[2:], "%x", &v)
			case strings.HasPrefix(t, "#b"):
				for _, ch := range t[2:] {
					v = v<<1 | uint64(ch-'0')
				}
			}
			p++
		}
		out = append(out, v)
		if p >= len(toks) || toks[p] != ")" {
			return nil
		}
		p++
	}
	return out
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
