package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const sentinelTag = 900001

// World is the loaded program and its specification.
type World struct {
	prog      *ssa.Program
	dir       string
	specs     *Specs
	mu        sync.Mutex
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	pkgs      []*packages.Package
	byPath    map[string]*types.Package
	mutGlob   map[*ssa.Global]bool
	initConst map[*ssa.Global]*ssa.Const
	sentGlob  map[*ssa.Global]bool
	initAlias map[*ssa.Global]*ssa.Global
	initN     map[*ssa.Global]int // stores and element addresses taken by package initialisation
	scanned   map[*ssa.Function]bool
	initCall  map[*ssa.Global]*ssa.Call
	initMap   map[*ssa.Global][][2]ssa.Value // literal contents of package-level maps that are only read after initialisation
	mapDirty  map[*ssa.Global]bool
	initMM    map[*ssa.Global]*ssa.MakeMap
	funcs     map[string]*ssa.Function
}

func loadWorld(dir string, specs *Specs) (*World, error) {
	goroot := os.Getenv("VERIF_GOROOT")
	if goroot == "" {
		goroot = "/opt/veriftools/go1.23.12"
	}
	env := []string{"PATH=" + goroot + "/bin:" + os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1"}
	for _, k := range []string{"HOME", "GOCACHE", "GOMODCACHE", "TMPDIR"} {
		if v := os.Getenv(k); v != "" {
			env = append(env, k+"="+v)
		}
	}
	os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./golibs/...", "github.com/oklog/ulid/v2", "encoding/binary", "sort")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, dir: dir, specs: specs, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, pkgs: pkgs, byPath: map[string]*types.Package{},
		mutGlob: map[*ssa.Global]bool{}, initConst: map[*ssa.Global]*ssa.Const{}, sentGlob: map[*ssa.Global]bool{}, initAlias: map[*ssa.Global]*ssa.Global{}, initMap: map[*ssa.Global][][2]ssa.Value{}, initCall: map[*ssa.Global]*ssa.Call{}, initN: map[*ssa.Global]int{}, scanned: map[*ssa.Function]bool{}, mapDirty: map[*ssa.Global]bool{}, initMM: map[*ssa.Global]*ssa.MakeMap{}, funcs: map[string]*ssa.Function{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil {
			w.byPath[p.PkgPath] = p.Types
		}
	})
	for fn := range ssautil.AllFunctions(prog) {
		w.scan(fn)
		if fn.Synthetic == "" && fn.Origin() == nil && fn.Parent() == nil || strings.HasPrefix(fn.Synthetic, "generic") {
			w.funcs[funcKey(fn)] = fn
		}
	}
	// AllFunctions only visits reachable generics: index package members directly
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch u := m.(type) {
			case *ssa.Function:
				if w.funcs[funcKey(u)] == nil {
					w.funcs[funcKey(u)] = u
					w.scan(u)
				}
			case *ssa.Type:
				n, ok := u.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
						k := funcKey(f)
						if w.funcs[k] == nil || w.funcs[k].Origin() != nil {
							w.funcs[k] = f
							w.scan(f)
						}
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) scan(fn *ssa.Function) {
	if w.scanned[fn] {
		return
	}
	w.scanned[fn] = true
	isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					w.initN[g]++
					if !isInit {
						w.mutGlob[g] = true
					} else if c, ok := s.Val.(*ssa.Const); ok {
						w.initConst[g] = c
					} else if call, ok := s.Val.(*ssa.Call); ok {
						if f := call.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
							w.sentGlob[g] = true
						} else if f != nil {
							w.initCall[g] = call
						}
					} else if ld, ok := s.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if g2, ok := ld.X.(*ssa.Global); ok {
							w.initAlias[g] = g2
						}
					} else if mm, ok := s.Val.(*ssa.MakeMap); ok {
						w.scanInitMap(g, mm)
					}
				}
				continue
			}
			// address taken other than by load/store: assume it may change
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				switch u := in.(type) {
				case *ssa.UnOp:
					if _, ok := under(u.Type()).(*types.Map); ok && !readOnlyMap(u) {
						w.mapDirty[g] = true
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					w.initN[g] += 2
					if !isInit {
						w.mutGlob[g] = true
					}
				default:
					w.mutGlob[g] = true
				}
			}
		}
	}
}

// readOnlyMap: the loaded map is only looked up, ranged over or measured.
func readOnlyMap(u *ssa.UnOp) bool {
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			b, ok := r.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// scanInitMap records the entries of a map literal assigned to g by package initialisation.
func (w *World) scanInitMap(g *ssa.Global, mm *ssa.MakeMap) {
	var es [][2]ssa.Value
	for _, b := range mm.Parent().Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(mm) {
					continue
				}
				switch u := in.(type) {
				case *ssa.MapUpdate:
					if u.Map != ssa.Value(mm) || b != mm.Block() {
						return
					}
					es = append(es, [2]ssa.Value{u.Key, u.Value})
				case *ssa.Store, *ssa.DebugRef:
				default:
					return
				}
			}
		}
	}
	if mm0, dup := w.initMM[g]; dup && mm0 != mm {
		w.mapDirty[g] = true
	}
	w.initMM[g] = mm
	w.initMap[g] = es
}

func (w *World) immutable(g *ssa.Global) bool {
	if w.mutGlob[g] {
		return false
	}
	t := g.Type().(*types.Pointer).Elem()
	if !w.inRepoPkg(g.Pkg) {
		return true
	}
	switch under(t).(type) {
	case *types.Basic, *types.Interface, *types.Slice, *types.Pointer, *types.Map, *types.Signature, *types.Struct:
		return true
	}
	return false
}

func (w *World) sentinel(g *ssa.Global) bool {
	if w.sentGlob[g] {
		return true
	}
	t := g.Type().(*types.Pointer).Elem()
	return !w.inRepoPkg(g.Pkg) && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (w *World) inRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (w *World) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return w.inRepoPkg(f.Pkg)
	}
	return f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), modPath)
}

func (w *World) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loops[f]; ok {
		return l
	}
	l := findLoops(f)
	w.loops[f] = l
	return l
}

func (w *World) escapes(a *ssa.Alloc) bool { return true }

func (w *World) sigOK(c *Contract, f *ssa.Function) bool {
	n := f.Signature.Params().Len()
	if f.Signature.Recv() != nil {
		n++
	}
	return n == len(c.Params) && (len(c.Results) == 0 || len(c.Results) == f.Signature.Results().Len())
}

func (w *World) pkgOf(path string) *types.Package { return w.byPath[path] }

func (w *World) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	if i := strings.LastIndex(name, "/"); i >= 0 {
		return w.byPath[modPath+"/"+name]
	}
	for _, p := range w.pkgs {
		if p.Types != nil && p.Types.Name() == name {
			return p.Types
		}
	}
	for _, p := range w.byPath {
		if p.Path() == name {
			return p
		}
	}
	return nil
}

func (w *World) global(env *Env, name string) (*ssa.Global, string, types.Type) {
	if env.pkg == nil {
		return nil, "", nil
	}
	p := w.prog.Package(env.pkg)
	if p == nil {
		return nil, "", nil
	}
	g := p.Var(name)
	if g == nil {
		return nil, "", nil
	}
	return g, "g:" + g.String(), g.Type().(*types.Pointer).Elem()
}
