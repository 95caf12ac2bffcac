package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program and the package-level results.
type Engine struct {
	prog  *ssa.Program
	pkg   *ssa.Package
	tpkg  *types.Package
	dir   string
	debug bool
	files []string

	paths       int
	maxPaths    int
	deadline    time.Time
	obligations int

	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	init    *State
	globals map[*ssa.Global]int
	used    map[*ssa.Function]int
	calls   map[string]int // models used
	recur   func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool)
	reenter func(r *Run, fn *ssa.Function) bool // a recursive call that is analysed after all
	filters map[string]*filterDesc
	loopsN  int

	hook        func(r *Run, fn *ssa.Function, args []Val) ([]Val, bool)
	invokeHook  func(r *Run, x *Term, m *types.Func, args []Val) ([]Val, bool)
	unrollAll   bool
	forceUnroll bool
	unroll      map[int]bool // loops analysed for a bounded number of iterations
	unrollMax   int
	bounded     map[string]int
	eofAxiom    bool
	packFails   bool
	notePayload bool // the outcome of library payload decoders is an event
	maxCount    int  // announced counts are at most this
	textOn      bool // printed texts are kept as what they were printed from
	reflectOn   bool // reflection on known types is followed
	packLog     bool // calls of the packer are logged, not analysed
	sortOK      map[string]bool
	curRun      *Run
	streams     map[*Term]*stream
}

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

const pkgPath = "github.com/codeallergy/value"

func load(dir string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedExportFile,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pk) != 1 || pk[0].PkgPath != pkgPath {
		return nil, fmt.Errorf("expected the single package %s, got %v", pkgPath, pk)
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the package does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	e := &Engine{prog: prog, pkg: ps[0], tpkg: pk[0].Types, dir: dir, maxPaths: 20000, unroll: map[int]bool{}, unrollMax: 3, bounded: map[string]int{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, globals: map[*ssa.Global]int{},
		used: map[*ssa.Function]int{}, calls: map[string]int{}, filters: map[string]*filterDesc{}, sortOK: map[string]bool{}}
	e.files = pk[0].CompiledGoFiles
	if err := e.interpInit(); err != nil {
		return nil, err
	}
	return e, nil
}

// interpInit evaluates the package initialiser once; its final state gives
// the contents of the package-level variables.
func (e *Engine) interpInit() error {
	init := e.pkg.Func("init")
	outs := e.Explore(newState(), nil, func(r *Run) []Val {
		for _, m := range e.pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				r.globalObj(g)
			}
		}
		r.callFn(init, nil, nil)
		return nil
	})
	var rets []*Outcome
	for _, o := range outs {
		if o.kind != "ret" {
			return fmt.Errorf("package initialisation: %s: %s at %s %s", o.kind, o.msg, o.pos, o.fn)
		}
		rets = append(rets, o)
	}
	if len(rets) != 1 {
		return fmt.Errorf("package initialisation has %d outcomes", len(rets))
	}
	e.init = rets[0].st
	e.init.evs = nil
	e.init.writes = nil
	e.init.allocs = nil
	for _, m := range e.init.meta {
		if m.global == "" {
			m2 := *m
			m2.fresh = false
			m2.origin = "package-level data"
			e.init.meta[m.id] = &m2
		}
	}
	return nil
}

// start is the state a rule begins with: after package initialisation.
func (e *Engine) start() *State { return e.init.clone() }

// inPkg: struct types whose fields belong to the analysed package.
func (e *Engine) inPkg(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p := st.Field(i).Pkg(); p != nil && p.Path() != pkgPath {
			return false
		}
	}
	if st.NumFields() == 0 {
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgPath
		}
		return true
	}
	return true
}

func (e *Engine) sinkType(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder":
		return "builder"
	case "bytes.Buffer":
		return "buffer"
	}
	return ""
}

// named looks up a type of the analysed package.
func (e *Engine) typ(name string) types.Type {
	o := e.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

func (e *Engine) posString(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, e.dir+"/"), ps.Line)
}

// ---- natural loops

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
	name   string
	id     int
}

type filterDesc struct {
	inst string
	j    *Term
	n    *Term   // number of iterations
	cond *Term   // an iteration contributes iff this holds
	all  []*Term // facts common to all iterations
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := e.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li := m[s]
			if li == nil {
				li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				for _, in := range s.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						li.phis = append(li.phis, p)
					}
				}
				m[s] = li
			}
			// blocks reaching b without passing s
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if li.body[x] {
					continue
				}
				li.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, b := range fn.Blocks {
		if li := m[b]; li != nil {
			e.loopsN++
			li.id = e.loopsN
			li.name = fmt.Sprintf("%s.L%d", fn.Name(), b.Index)
		}
	}
	e.loops[fn] = m
	return m
}
