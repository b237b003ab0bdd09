package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type HResult struct {
	h       *Harness
	x       *Exec
	err     string // unsupported construct or internal failure
	dur     time.Duration
	outs    int
	stack   string
	special *SpecialResult
}

func (p *Program) verify(h *Harness, tier string) (res *HResult) {
	res = &HResult{h: h}
	t0 := time.Now()
	defer func() {
		if res.x != nil && res.x.solver != nil {
			res.x.solver.Close()
		}
		res.dur = time.Since(t0)
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				res.err = u.msg
				if res.x != nil && len(res.x.curCall) > 0 {
					res.err += " [in " + strings.Join(res.x.curCall, " > ") + "]"
				}
			} else {
				res.err = fmt.Sprint("verifier: ", r)
			}
			res.stack = string(debug.Stack())
			if os.Getenv("GOVC_STACK") != "" {
				fmt.Fprintln(os.Stderr, res.err, res.stack)
			}
		}
	}()
	if h.native {
		return
	}
	if h.special != "" {
		res.special = p.runSpecial(h, tier)
		res.err = res.special.err
		return
	}
	x := p.newExec(h)
	res.x = x
	x.h = h
	b := h.Budget
	if b == 0 {
		b = 300
	}
	if tier == "thorough" {
		b *= 3
		if h.Timeout == 0 {
			h.Timeout = 60
		} else {
			h.Timeout *= 3
		}
	}
	x.deadline = time.Now().Add(time.Duration(b) * time.Second)
	x.solver = NewSolver(x.stats)
	pn := p.pkgs[h.Pkg].Pkg.Name()
	for _, u := range h.uses {
		k := u
		if !strings.Contains(k, ".") {
			k = pn + "." + u
		}
		c, of := p.contracts[k], p.contractOf[k]
		if c == nil || of == nil {
			panic(unsupported("contract %s: its target function no longer exists under that name", u))
		}
		x.replace[of] = c
	}
	for _, n := range h.noret {
		x.noretmerge[n] = true
	}
	x.bindLoops(h)
	st := &State{x: x, known: map[*Term]bool{}, bounds: map[*Term][2]uint64{}, heap: map[int]Value{}}
	outs := x.call(st, h.fn, nil, nil, false)
	res.outs = len(outs)
	return
}

func (r *HResult) failed() bool {
	if r.h.native {
		return false
	}
	if r.err != "" {
		return true
	}
	if r.special != nil {
		return len(r.special.failed) > 0
	}
	for _, o := range r.x.obls {
		if o.Failed {
			return true
		}
	}
	n := 0
	for _, o := range r.x.obls {
		n += o.N
	}
	for _, ok := range r.x.covers {
		if !ok {
			return true
		}
	}
	return n == 0 || r.outs == 0 || len(r.x.covers) == 0
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "run only this harness")
	list := flag.Bool("list", false, "")
	par := flag.Int("j", 7, "")
	noreplay := flag.Bool("noreplay", false, "")
	verbose := flag.Bool("v", false, "")
	rerun := flag.String("rerun", "", "repeat the failing run of a replay file")
	native := flag.Int("native", 0, "run the harnesses natively with this many seeds")
	flag.Parse()
	prop := flag.Arg(0)
	t0 := time.Now()
	debug.SetGCPercent(300)
	p, err := Load(*repo, *verif)
	if err != nil {
		fmt.Println("cannot load:", err)
		os.Exit(2)
	}
	if *rerun != "" {
		os.Exit(p.rerun(*rerun))
	}
	if *native > 0 {
		os.Exit(p.nativeAll(prop, *only, *native))
	}
	if *list {
		for _, h := range p.harnesses {
			fmt.Println(h.Prop, h.Name, h.Pkg)
		}
		return
	}
	loadT := time.Since(t0)
	var hs []*Harness
	for _, h := range p.harnesses {
		match := false
		for _, pr := range strings.Split(h.Prop, ",") {
			match = match || pr == prop
		}
		if match && (*only == "" || *only == h.Name) && (h.tier == "" || h.tier == *tier) {
			hs = append(hs, h)
		}
	}
	results := make([]*HResult, len(hs))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range hs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			results[i] = p.verify(hs[i], *tier)
			<-sem
		}(i)
	}
	wg.Wait()
	// report
	bad := false
	for _, r := range results {
		if r.h.native {
			continue
		}
		status := "ok"
		if r.failed() {
			status = "FAILED"
			bad = true
		}
		n, labels := 0, 0
		if r.x != nil {
			for _, o := range r.x.obls {
				n += o.N
				labels++
			}
			fmt.Printf("%-34s %-7s %5d obligations in %d groups, %d paths, %d queries, solver %.1fs, total %.1fs\n", r.h.Name, status, n, labels, r.x.paths+1, r.x.stats.Queries, r.x.stats.Time.Seconds(), r.dur.Seconds())
			for _, o := range r.x.obls {
				if o.Failed {
					fmt.Printf("    UNDISCHARGED %q (%s): %s\n", o.Label, o.Where, o.Reason)
				} else if *verbose {
					fmt.Printf("    discharged %q x%d %v\n", o.Label, o.N, o.Engines)
				}
			}
			for c, ok := range r.x.covers {
				if !ok {
					fmt.Printf("    VACUOUS: %q is unreachable\n", c)
				}
			}
			if r.err == "" && (r.outs == 0 || len(r.x.covers) == 0) {
				fmt.Printf("    VACUOUS: outcomes %d, covers %d\n", r.outs, len(r.x.covers))
			}
			if *verbose {
				var ps []string
				for k := range r.x.panics {
					ps = append(ps, k)
				}
				sort.Strings(ps)
				fmt.Println("    documented panics:", ps)
			}
		} else if r.special != nil {
			fmt.Printf("%-34s %-7s %s (%.1fs)\n", r.h.Name, status, r.special.summary, r.dur.Seconds())
			for _, f := range r.special.failed {
				fmt.Printf("    UNDISCHARGED %s\n", f)
			}
		}
		if r.err != "" {
			fmt.Printf("    NOT VERIFIED %s: %s\n", r.h.Name, r.err)
		}
	}
	missing := []string{}
	for f, m := range p.dropped {
		// a specification that no longer type checks leaves its obligations undischarged
		b, _ := os.ReadFile(f)
		for _, pr := range propsIn(string(b)) {
			if pr == prop {
				missing = append(missing, filepath.Base(f)+": "+m)
			}
		}
	}
	for _, m := range missing {
		fmt.Println("    NOT VERIFIED: specification does not apply to the current source:", m)
		bad = true
	}
	if len(hs) == 0 && len(missing) == 0 {
		fmt.Println("no harness for", prop)
		os.Exit(2)
	}
	fmt.Printf("load %.1fs, total %.1fs\n", loadT.Seconds(), time.Since(t0).Seconds())
	if *only == "" {
		p.writeEvidence(prop, *tier, results, missing, t0, bad)
	}
	if bad {
		if *noreplay {
			os.Exit(1)
		}
		path, confirmed := p.replay(prop, results, missing)
		suffix := ""
		if !confirmed {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
		os.Exit(1)
	}
	fmt.Printf("property %s: every obligation discharged\n", prop)
}

func propsIn(src string) []string {
	var r []string
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "//verif:harness") {
			for _, p := range strings.Split(kv(strings.Fields(l[8:]))["prop"], ",") {
				r = append(r, p)
			}
		}
	}
	return r
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}
