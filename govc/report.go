package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// standing is the part of the trusted base every proof shares.
var standing = []string{
	"govc: translation of go/ssa to verification conditions, its simplifier and bit-blasting front end (checked by native replay of every harness, see DESIGN.md)",
	"go/packages, go/types and go/ssa of golang.org/x/tools v0.52.0 for the meaning of the source",
	"SMT solvers z3-new, z3 4.8.12, cvc5 1.1.2 (an answer 'unsat' of one of them is believed)",
	"memory allocation succeeds; goroutines interact only through the channels modelled",
}

type fnRow struct {
	Function string `json:"function"`
	How      string `json:"how"`
}

func (p *Program) writeEvidence(prop, tier string, results []*HResult, missing []string, t0 time.Time, bad bool) {
	obl, dis, groups := 0, 0, 0
	eng := map[string]int{}
	queries := 0
	solverT := 0.0
	funcs := map[string]bool{}
	assumed := map[string]bool{}
	bounded := []string{}
	contracts := map[string]bool{}
	invs := map[string]bool{}
	panics := map[string]bool{}
	covers := 0
	var hrows []interface{}
	viol := 0
	for _, r := range results {
		if r.h.native {
			continue
		}
		row := map[string]interface{}{"harness": r.h.Name, "package": r.h.Pkg, "seconds": round(r.dur.Seconds()), "error": r.err}
		n, d := 0, 0
		if r.x != nil {
			for _, o := range r.x.obls {
				groups++
				n += o.N
				d += o.N
				if o.Failed {
					n++
					viol++
				}
			}
			for e, k := range r.x.stats.ByEngine {
				eng[e] += k
			}
			queries += r.x.stats.Queries
			solverT += r.x.stats.Time.Seconds()
			for f := range r.x.funcs {
				funcs[f] = true
			}
			for a := range r.x.assumed {
				assumed[a] = true
			}
			for a := range r.x.panics {
				panics[a] = true
			}
			covers += len(r.x.covers)
			row["paths"] = r.x.paths + 1
		}
		if r.special != nil {
			n, d = r.special.obligations, r.special.obligations-len(r.special.failed)
			viol += len(r.special.failed)
			for e, k := range r.special.engines {
				eng[e] += k
			}
			queries += r.special.queries
			solverT += r.special.solverTime
			for _, f := range r.special.funcs {
				funcs[f] = true
			}
			for _, f := range r.special.assumed {
				assumed[f] = true
			}
		}
		if r.err != "" {
			viol++
			n++
		}
		obl += n
		dis += d
		row["obligations"] = n
		row["discharged"] = d
		if r.h.Bounded != "" {
			bounded = append(bounded, r.h.Name+": "+r.h.Bounded)
			row["bounded"] = r.h.Bounded
		}
		for _, u := range r.h.uses {
			contracts[u] = true
		}
		for _, u := range r.h.invs {
			invs[u] = true
		}
		hrows = append(hrows, row)
	}
	viol += len(missing)
	tb := append([]string{}, standing...)
	for _, a := range sorted(assumed) {
		tb = append(tb, a)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier != "thorough" {
		tier = "quick"
	}
	as := sorted(assumed)
	as = append(as, bounded...)
	for _, s := range sorted(panics) {
		as = append(as, "documented refusal (explicit panic) allowed: "+s)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": obl, "discharged": dis,
			"checker_cmd":              "bin/govc -tier " + tier + " " + prop,
			"trusted_base":             tb,
			"functions_under_contract": sorted(funcs),
			"contracts_applied":        sorted(contracts),
			"loop_invariants":          sorted(invs),
			"obligation_groups":        groups,
			"reachability_covers":      covers,
			"discharged_by_engine":     eng,
			"solver_queries":           queries,
			"solver_seconds":           round(solverT),
			"harnesses":                hrows,
			"not_verified":             missing,
			"bounded_parts":            bounded,
		},
		"assumptions": as,
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  viol,
	}
	writeJSON(filepath.Join(p.verif, "evidence", prop+".json"), ev)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func sorted(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- replay on the real code ----

const replayTmpl = `package PKG

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/32bitkid/mpeg/internal/vc"
)

func TestVerifReplay(t *testing.T) {
	hs := map[string]func(){
HARNESSES	}
	h := hs[os.Getenv("VREPLAY_HARNESS")]
	if h == nil {
		t.Skip()
	}
	vc.Verbose = os.Getenv("VREPLAY_VERBOSE") != ""
	lo, _ := strconv.ParseUint(os.Getenv("VREPLAY_LO"), 10, 64)
	n, _ := strconv.ParseUint(os.Getenv("VREPLAY_N"), 10, 64)
	lim, _ := strconv.Atoi(os.Getenv("VREPLAY_SECONDS"))
	t0 := time.Now()
	cur, _ := os.Create(os.Getenv("VREPLAY_CUR"))
	skipped, ran := 0, 0
	for s := lo; s < lo+n; s++ {
		cur.WriteAt([]byte(fmt.Sprintf("%12d", s)), 0)
		failed, sk := vc.Run(h, os.Getenv("VREPLAY_MODEL"), s)
		ran++
		if sk {
			skipped++
		}
		if len(failed) > 0 {
			b, _ := json.Marshal(map[string]interface{}{"seed": s, "failed": failed, "input": vc.Inputs()})
			fmt.Println("VREPLAY-FAIL " + string(b))
			return
		}
		if lim > 0 && time.Since(t0) > time.Duration(lim)*time.Second {
			break
		}
	}
	fmt.Println("VREPLAY-NONE", ran, skipped)
}
`

type replayer struct {
	p    *Program
	dir  string
	bins map[string]string
	errs map[string]string
}

func (p *Program) newReplayer() *replayer {
	d, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		panic(err)
	}
	return &replayer{p: p, dir: d, bins: map[string]string{}, errs: map[string]string{}}
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

// binary builds the test binary of a package with the specifications overlaid on the current source.
func (r *replayer) binary(pkg string) (string, error) {
	if b, ok := r.bins[pkg]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[pkg])
		}
		return b, nil
	}
	short := pkg[strings.LastIndex(pkg, "/")+1:]
	var hs strings.Builder
	for _, h := range r.p.harnesses {
		if h.Pkg == pkg {
			fmt.Fprintf(&hs, "\t\t%q: %s,\n", h.Name, h.Name)
		}
	}
	src := strings.Replace(strings.Replace(replayTmpl, "PKG", short, 1), "HARNESSES", hs.String(), 1)
	tf := filepath.Join(r.dir, short+"_replay_test.go")
	os.WriteFile(tf, []byte(src), 0644)
	ov := map[string]string{filepath.Join(r.p.repo, short, "zz_vreplay_test.go"): tf}
	for t, s := range r.p.overFiles {
		ov[t] = s
	}
	// the repository's own tests are not needed
	old, _ := filepath.Glob(filepath.Join(r.p.repo, short, "*_test.go"))
	for _, o := range old {
		if ov[o] == "" {
			ov[o] = ""
		}
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(r.dir, short+".json")
	os.WriteFile(of, ob, 0644)
	bin := filepath.Join(r.dir, short+".test")
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", of, "-c", "-o", bin, "./"+short)
	cmd.Dir = r.p.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.bins[pkg] = ""
		r.errs[pkg] = string(out)
		return "", fmt.Errorf("%s", out)
	}
	r.bins[pkg] = bin
	return bin, nil
}

type replayOut struct {
	Harness string   `json:"harness"`
	Model   *Model   `json:"model,omitempty"`
	Seed    uint64   `json:"seed"`
	Failed  []string `json:"failed"`
	Input   string   `json:"input,omitempty"`
	ran     int
	skipped int
}

// run runs a harness natively; nil means that nothing failed.
func (r *replayer) run(h *Harness, m *Model, lo uint64, n int, seconds int, verbose bool) (*replayOut, string) {
	bin, err := r.binary(h.Pkg)
	if err != nil {
		return nil, err.Error()
	}
	f, _ := os.CreateTemp(r.dir, "cur")
	f.Close()
	env := append(os.Environ(), "VREPLAY_HARNESS="+h.Name, "VREPLAY_CUR="+f.Name(), fmt.Sprint("VREPLAY_LO=", lo), fmt.Sprint("VREPLAY_N=", n), fmt.Sprint("VREPLAY_SECONDS=", seconds), "GOGC=50")
	if m != nil {
		mf := f.Name() + ".model"
		os.WriteFile(mf, []byte(m.JSON()), 0644)
		env = append(env, "VREPLAY_MODEL="+mf)
	}
	if verbose {
		env = append(env, "VREPLAY_VERBOSE=1")
	}
	cmd := exec.Command("bash", "-c", "ulimit -v 16000000; cd "+r.dir+"; exec timeout -s KILL "+fmt.Sprint(seconds+30)+" "+bin+" -test.run 'TestVerifReplay$' -test.timeout 600s")
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	s := string(out)
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "VREPLAY-FAIL ") {
			o := &replayOut{Harness: h.Name, Model: m}
			json.Unmarshal([]byte(l[len("VREPLAY-FAIL "):]), o)
			return o, s
		}
		if strings.HasPrefix(l, "VREPLAY-NONE") {
			return nil, s
		}
	}
	if err == nil {
		return nil, s
	}
	cur, _ := os.ReadFile(f.Name())
	sd, e2 := strconv.ParseUint(strings.TrimSpace(string(cur)), 10, 64)
	if e2 != nil {
		return nil, s
	}
	msg := "the process died: "
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			msg += l
			break
		}
	}
	return &replayOut{Harness: h.Name, Model: m, Seed: sd, Failed: []string{msg}}, s
}

// replay looks for an input on which the real code fails, first from the solver's models and then by search.
func (p *Program) replay(prop string, results []*HResult, missing []string) (string, bool) {
	path := filepath.Join(p.verif, "replays", prop+".json")
	rep := map[string]interface{}{"property": prop}
	var und []map[string]interface{}
	rp := p.newReplayer()
	defer rp.close()
	var found *replayOut
	t0 := time.Now()
	for _, r := range results {
		if r.err != "" {
			und = append(und, map[string]interface{}{"harness": r.h.Name, "not_verified": r.err})
		}
		if r.special != nil {
			for _, f := range r.special.failed {
				und = append(und, map[string]interface{}{"harness": r.h.Name, "obligation": f})
			}
			if found == nil && len(r.special.failed) > 0 {
				found = r.special.confirmed
			}
		}
		if r.x == nil {
			continue
		}
		for _, o := range r.x.obls {
			if !o.Failed {
				continue
			}
			e := map[string]interface{}{"harness": r.h.Name, "obligation": o.Label, "where": o.Where, "verifier": o.Reason}
			if o.Model != nil {
				e["counterexample"] = o.Model
			}
			und = append(und, e)
			if found == nil && o.Model != nil && time.Since(t0) < 90*time.Second {
				found, _ = rp.run(r.h, o.Model, 0, 1, 10, false)
			}
		}
	}
	for _, m := range missing {
		und = append(und, map[string]interface{}{"not_verified": m})
	}
	// search: failed harnesses first
	order := []*HResult{}
	for _, r := range results {
		if r.h.native {
			order = append(order, r)
		}
	}
	for _, r := range results {
		if r.failed() {
			order = append(order, r)
		}
	}
	for _, r := range results {
		if !r.failed() && !r.h.native {
			order = append(order, r)
		}
	}
	for i, r := range order {
		if found != nil || time.Since(t0) > 200*time.Second {
			break
		}
		sec := 40
		if i > 2 {
			sec = 10
		}
		if r.special == nil {
			found, _ = rp.run(r.h, nil, 1, r.h.Search, sec, false)
		}
	}
	rep["undischarged"] = und
	if found != nil {
		rep["failing_run"] = found
		rep["reproduce"] = "bin/govc -rerun " + path
	} else {
		rep["failing_run"] = nil
		rep["note"] = "no-failing-input-found"
	}
	writeJSON(path, rep)
	if found != nil {
		fmt.Printf("    replayed on the real code: harness %s seed %d model %v: %s\n", found.Harness, found.Seed, found.Model != nil, strings.Join(found.Failed, "; "))
	}
	return path, found != nil
}

// rerun repeats the failing run of a replay file on the current source.
func (p *Program) rerun(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rep struct {
		FailingRun *replayOut `json:"failing_run"`
	}
	json.Unmarshal(b, &rep)
	if rep.FailingRun == nil {
		fmt.Println("no failing run in", file)
		return 2
	}
	rp := p.newReplayer()
	defer rp.close()
	for _, h := range p.harnesses {
		if h.Name == rep.FailingRun.Harness {
			o, out := rp.run(h, rep.FailingRun.Model, rep.FailingRun.Seed, 1, 20, true)
			fmt.Println(out)
			if o != nil {
				return 1
			}
			return 0
		}
	}
	return 2
}

// nativeAll runs every harness natively over many seeds: on a tree that verifies nothing may fail.
func (p *Program) nativeAll(prop, only string, n int) int {
	rp := p.newReplayer()
	defer rp.close()
	rc := 0
	for _, h := range p.harnesses {
		match := prop == "" || prop == "all"
		for _, pr := range strings.Split(h.Prop, ",") {
			match = match || pr == prop
		}
		if !match || only != "" && only != h.Name || h.special != "" {
			continue
		}
		o, out := rp.run(h, nil, 1, n, 60, false)
		if o != nil {
			fmt.Printf("%-30s seed %d: %v\n      input %s\n", h.Name, o.Seed, o.Failed, o.Input)
			rc = 1
		} else {
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "VREPLAY-NONE") {
					out = l
				}
			}
			fmt.Printf("%-30s %s\n", h.Name, out)
		}
	}
	return rc
}
