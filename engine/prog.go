package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/dufourgilles/emberlib"
const vpPath = "verif/harness/vp"

func isRepoPkg(p string) bool { return p == repoMod || strings.HasPrefix(p, repoMod+"/") }

var modelledPkgs = map[string]bool{"errors": true, "io": true, "bytes": true, "container/list": true, "encoding/binary": true, "strconv": true,
	"unicode/utf8": true, "strings": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true, "math": true, "math/bits": true, "internal/stringslite": true, "container/heap": true, "unicode/utf16": true, "context": true, "bufio": true, "encoding/hex": true, "internal/strconv": true}

func modelled(p string) bool {
	return isRepoPkg(p) || strings.HasPrefix(p, "verif/harness") || modelledPkgs[p]
}

type Prog struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	globals  map[*ssa.Global]int
	poisonID int
	base     *State
	stubs    map[string]*ssa.Function
	rtErr    types.Type
	fmtErrP  types.Type
	timeType types.Type
	timerP   types.Type
	methods  sync.Map
	intr     sync.Map
	resolved sync.Map
	errObjs  map[string]int // error variables of packages that are not interpreted
}

func loadProg(dir string, patterns []string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}, stubs: map[string]*ssa.Function{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	vp := p.pkgs[vpPath]
	if vp == nil {
		return nil, fmt.Errorf("vp package not loaded")
	}
	p.rtErr = vp.Type("RuntimeError").Type()
	p.fmtErrP = types.NewPointer(vp.Type("FmtError").Type())
	if t := p.pkgs["time"]; t != nil {
		p.timeType = t.Type("Time").Type()
		p.timerP = types.NewPointer(t.Type("Timer").Type())
	}
	for target, stub := range stubNames {
		f := vp.Func(stub)
		if f == nil {
			return nil, fmt.Errorf("missing stub %s", stub)
		}
		p.stubs[target] = f
	}
	// base state
	st := &State{id: newOwner(), known: map[*Term]bool{}, pinned: map[int32]bool{}, model: newModel(), maxStep: 50000000}
	st.heap = append(st.heap, nil) // 0 = nil
	p.poisonID = st.newObj(&Object{poison: "(package not modelled)"})
	p.errObjs = map[string]int{}
	for _, sp := range prog.AllPackages() {
		if !modelled(sp.Pkg.Path()) {
			for _, m := range sp.Members {
				g, ok := m.(*ssa.Global)
				if ok && token.IsExported(g.Name()) && types.Identical(g.Type().Underlying().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
					id := st.newObj(&Object{kind: oCells, cells: []Value{cstr(sp.Pkg.Name() + "." + g.Name())}})
					p.errObjs[g.String()] = id
				}
			}
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[g] = st.allocType(g.Type().Underlying().(*types.Pointer).Elem()).obj
			}
		}
	}
	p.base = st
	return p, nil
}

// runInit executes the package initialisers of the modelled packages.
func (p *Prog) runInit(pkgs []string) error {
	for _, path := range pkgs {
		sp := p.pkgs[path]
		init := sp.Func("init")
		run := newRun(p, "init", 0)
		x := &X{run: run, sv: nil, funcs: map[*ssa.Function]int{}}
		st := p.base
		st.gs = []*Goroutine{{id: 0}}
		st.cur = 0
		x.st = st
		x.enter(st.gs[0], init, nil, nil)
		end := x.runState(st)
		if end.kind != "done" {
			return fmt.Errorf("init %s: %s %s in %s", path, end.kind, end.msg, x.stack())
		}
	}
	p.base.steps = 0
	p.base.gs = nil
	return nil
}

func (p *Prog) globalObj(g *ssa.Global) int {
	if id, ok := p.globals[g]; ok {
		return id
	}
	return p.poisonID
}

func (p *Prog) runtimeErr(msg string) Iface {
	return Iface{p.rtErr, Agg{cstr("runtime error: " + msg)}}
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	p.methods.Store(k, f)
	return f
}

func (p *Prog) resolve(fn *ssa.Function) *ssa.Function {
	if r, ok := p.resolved.Load(fn); ok {
		return r.(*ssa.Function)
	}
	r := fn
	if s, ok := p.stubs[fn.String()]; ok {
		r = s
	}
	p.resolved.Store(fn, r)
	return r
}

func (p *Prog) intrinsic(fn *ssa.Function) intrinsicFn {
	if h, ok := p.intr.Load(fn); ok {
		return h.(intrinsicFn)
	}
	name := fn.String()
	h := intrinsics[name]
	if h == nil {
		if o := fn.Origin(); o != nil {
			h = intrinsics[o.String()]
		}
	}
	if h == nil && fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && !modelled(fn.Pkg.Pkg.Path()) {
		h = func(*X, *ssa.Function, []Value) Value { return nil }
	}
	if h == nil && fn.Pkg != nil && strings.HasPrefix(fn.Name(), "init#") && fn.Pkg.Pkg.Path() == vpPath {
		h = func(*X, *ssa.Function, []Value) Value { return nil }
	}
	p.intr.Store(fn, h)
	return h
}

// harnessDoc returns the doc comment of a harness, which states its bounds.
func (p *Prog) harnessDoc(pkg, name string) string {
	f := p.pkgs[pkg].Func(name)
	if f == nil {
		return ""
	}
	if d, ok := f.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
		return strings.TrimSpace(d.Doc.Text())
	}
	return ""
}
