package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/32bitkid/mpeg"

// depPkg holds a verbatim copy of the bit reader that /repo's go.mod selects, with its specifications.
const depPkg = "internal/zbitreader"

var repoPkgs = []string{"ts", "pes", "ps", "video", depPkg}

// Program is the loaded source with its specifications.
type Program struct {
	repo       string
	verif      string
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by import path
	mu         sync.Mutex
	infos      map[*ssa.Function]*fnInfo
	inits      map[*ssa.Package]map[string]bool
	streamType types.Type
	harnesses  []*Harness
	overlay    map[string][]byte
	overFiles  map[string]string // target -> source path
	dropped    map[string]string // spec file -> reason
	loopSpecs  []*LoopSpec
	contracts  map[string]*ssa.Function // contract function name -> function
	contractOf map[string]*ssa.Function
	extra      map[string]string
}

// Harness is one verification unit.
type Harness struct {
	Prop    string
	Name    string
	Pkg     string
	fn      *ssa.Function
	uses    []string
	invs    []string
	Timeout int
	Budget  int
	Search  int
	tier    string
	noret   []string
	// products are decided as integer arithmetic first
	integers    bool
	integersAll bool // everything is
	Bounded     string
	lazyAll     bool // no branch is asked whether it is possible
	lazy        bool // branches that join at once are merged without asking whether they are possible
	file        string
	special     string
	native      bool // only a generator of native runs: no obligations
}

func (h *Harness) timeout() time.Duration {
	if h.Timeout > 0 {
		return time.Duration(h.Timeout) * time.Second
	}
	return 20 * time.Second
}

func Load(repo, verif string) (*Program, error) {
	p := &Program{repo: repo, verif: verif, infos: map[*ssa.Function]*fnInfo{}, inits: map[*ssa.Package]map[string]bool{}, pkgs: map[string]*ssa.Package{},
		dropped: map[string]string{}, contracts: map[string]*ssa.Function{}, contractOf: map[string]*ssa.Function{}}
	for attempt := 0; ; attempt++ {
		p.overlay = map[string][]byte{}
		p.overFiles = map[string]string{}
		add := func(target, src string) {
			b, err := os.ReadFile(src)
			if err != nil {
				panic(err)
			}
			p.overlay[target] = b
			p.overFiles[target] = src
		}
		fs, _ := filepath.Glob(filepath.Join(verif, "vc", "*.go"))
		for _, f := range fs {
			add(filepath.Join(repo, "internal", "vc", filepath.Base(f)), f)
		}
		dep := depDir(repo)
		if dep != "" {
			fs, _ := filepath.Glob(filepath.Join(dep, "*.go"))
			for _, f := range fs {
				if !strings.HasSuffix(f, "_test.go") {
					add(filepath.Join(repo, depPkg, filepath.Base(f)), f)
				}
			}
		}
		for _, pk := range repoPkgs {
			if pk == depPkg && dep == "" {
				continue
			}
			fs, _ := filepath.Glob(filepath.Join(verif, "specs", filepath.Base(pk), "*.go"))
			for _, f := range fs {
				if p.dropped[f] == "" {
					add(filepath.Join(repo, pk, "zz_vspec_"+filepath.Base(f)), f)
				}
			}
		}
		p.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: p.fset, Overlay: p.overlay, Env: os.Environ()}
		var pats []string
		for _, pk := range repoPkgs {
			if pk == depPkg && dep == "" {
				continue
			}
			pats = append(pats, "./"+pk)
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var hard []string
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			if !strings.HasPrefix(pk.PkgPath, modPath) {
				return
			}
			for _, e := range pk.Errors {
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if src, ok := p.overFiles[file]; ok && strings.Contains(file, "zz_vspec_") {
					bad[src] = e.Error()
				} else {
					hard = append(hard, e.Error())
				}
			}
		})
		if len(bad) > 0 && attempt < 8 {
			for f, m := range bad {
				p.dropped[f] = m
			}
			continue
		}
		if len(hard) > 0 {
			return nil, fmt.Errorf("/repo does not load: %s", strings.Join(hard, "; "))
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
		p.prog = prog
		want := map[string]bool{vcPath: true, "github.com/32bitkid/huffman": true, "image": true, brPath: true}
		for _, pk := range repoPkgs {
			want[modPath+"/"+pk] = true
		}
		var initOrder []*ssa.Package
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			sp := prog.Package(pk.Types)
			if sp == nil || !want[pk.PkgPath] {
				return
			}
			sp.Build()
			p.pkgs[pk.PkgPath] = sp
			if pk.PkgPath != vcPath && pk.PkgPath != "image" && pk.PkgPath != brPath {
				initOrder = append(initOrder, sp)
				p.inits[sp] = map[string]bool{}
			}
			if pk.PkgPath == vcPath {
				p.streamType = types.NewPointer(sp.Type("Stream").Type())
			}
			if strings.HasPrefix(pk.PkgPath, modPath+"/") {
				p.scan(pk, sp)
			}
		})
		sort.SliceStable(p.harnesses, func(i, j int) bool { return p.harnesses[i].Name < p.harnesses[j].Name })
		return p, nil
	}
}

// depDir is where the source of the bit reader is.
func depDir(repo string) string {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", brPath)
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

func directives(doc *ast.CommentGroup) [][]string {
	var r [][]string
	if doc == nil {
		return nil
	}
	for _, c := range doc.List {
		if strings.HasPrefix(c.Text, "//verif:") {
			r = append(r, strings.Fields(c.Text[8:]))
		}
	}
	return r
}

func kv(f []string) map[string]string {
	m := map[string]string{}
	for _, s := range f[1:] {
		if i := strings.Index(s, "="); i > 0 {
			m[s[:i]] = s[i+1:]
		}
	}
	return m
}

func (p *Program) scan(pk *packages.Package, sp *ssa.Package) {
	for _, f := range pk.Syntax {
		fname := p.fset.Position(f.Pos()).Filename
		src := p.overFiles[fname]
		if src == "" {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			fn := sp.Func(fd.Name.Name)
			var h *Harness
			for _, dr := range directives(fd.Doc) {
				m := kv(dr)
				switch dr[0] {
				case "harness":
					h = &Harness{Prop: m["prop"], Name: fd.Name.Name, Pkg: sp.Pkg.Path(), fn: fn, file: src, Search: 4000, tier: m["tier"], special: m["special"], native: m["native"] == "only"}
					p.harnesses = append(p.harnesses, h)
				case "use":
					h.uses = append(h.uses, dr[1:]...)
				case "inv":
					h.invs = append(h.invs, dr[1:]...)
				case "noret":
					h.noret = append(h.noret, dr[1:]...)
				case "integers":
					h.integers = true
					h.integersAll = len(dr) > 1 && dr[1] == "all"
				case "timeout":
					h.Timeout, _ = strconv.Atoi(dr[1])
				case "budget":
					h.Budget, _ = strconv.Atoi(dr[1])
				case "search":
					h.Search, _ = strconv.Atoi(dr[1])
				case "lazy":
					h.lazy = true
					h.lazyAll = len(dr) > 1 && dr[1] == "all"
				case "bounded":
					h.Bounded = strings.Join(dr[1:], " ")
				case "loop":
					n, _ := strconv.Atoi(m["n"])
					p.loopSpecs = append(p.loopSpecs, &LoopSpec{fn: fn, of: p.findFn(sp, m["for"]), root: p.findFn(sp, strings.Split(m["for"], "$")[0]), target: m["for"], n: n, name: fd.Name.Name})
				case "contract":
					p.contracts[sp.Pkg.Name()+"."+fd.Name.Name] = fn
					p.contractOf[sp.Pkg.Name()+"."+fd.Name.Name] = p.findFn(sp, m["for"])
				}
			}
		}
	}
}

// findFn resolves "F", "T.M", "(*T).M", "pkg.F", and closures "F$1".
func (p *Program) findFn(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, ":"); i > 0 { // otherpkg:name
		for path, q := range p.pkgs {
			if path == name[:i] || strings.HasSuffix(path, "/"+name[:i]) {
				sp = q
			}
		}
		name = name[i+1:]
	}
	clos := ""
	if i := strings.Index(name, "$"); i > 0 {
		name, clos = name[:i], name[i+1:]
	}
	var fn *ssa.Function
	ptr := strings.HasPrefix(name, "(*")
	s := strings.NewReplacer("(*", "", ")", "").Replace(name)
	if i := strings.Index(s, "."); i > 0 {
		tn := sp.Type(s[:i])
		if tn != nil {
			var t types.Type = tn.Type()
			if ptr {
				t = types.NewPointer(t)
			}
			if m := p.prog.LookupMethod(t, sp.Pkg, s[i+1:]); m != nil {
				fn = m
			}
		}
	} else {
		fn = sp.Func(s)
	}
	for clos != "" && fn != nil {
		part := clos
		if i := strings.Index(clos, "$"); i > 0 {
			part, clos = clos[:i], clos[i+1:]
		} else {
			clos = ""
		}
		k, _ := strconv.Atoi(part)
		if k < 1 || k > len(fn.AnonFuncs) {
			return nil
		}
		fn = fn.AnonFuncs[k-1]
	}
	return fn
}

// newExec prepares an executor: package initialisers are executed concretely.
func (p *Program) newExec(h *Harness) *Exec {
	x := &Exec{maybeNil: map[int]bool{}, refW: map[int]int{}, p: p, c: NewCtx(), base: map[int]Value{}, globals: map[*ssa.Global]int{}, stats: &Stats{ByEngine: map[string]int{}}, oblIdx: map[string]*Obl{},
		funcs: map[string]bool{}, assumed: map[string]bool{}, errIDs: map[string]uint64{}, replace: map[*ssa.Function]*ssa.Function{}, covers: map[string]bool{},
		panics: map[string]bool{}, loopInvs: map[*ssa.Function][]*LoopSpec{}, noretmerge: map[string]bool{}, hardMemo: map[*Term]bool{}}
	x.errID("io.EOF")
	x.errID("io.ErrUnexpectedEOF")
	x.initing = true
	st := &State{x: x, known: map[*Term]bool{}, bounds: map[*Term][2]uint64{}, heap: map[int]Value{}}
	root := p.pkgs[h.Pkg]
	for _, o := range x.call(st, root.Func("init"), nil, nil, false) {
		for k, v := range o.st.heap {
			x.base[k] = v
		}
	}
	x.initing = false
	return x
}
