package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome for one function or lemma.
type FuncResult struct {
	Key     string
	Kind    string // func, lemma
	Obls    []*Oblig
	Paths   int
	Rounds  int
	Loops   int
	Invs    []string
	Trivial int
	Err     string
	Uses    []string
	Inlined []string
	Assumed []string
	Dur     time.Duration
	Solver  time.Duration
	Failed  []*Oblig
	Helper  bool
}

func (r *FuncResult) ok() bool { return r.Err == "" && len(r.Failed) == 0 }

func newExec(w *World, f *ssa.Function, con *Contract, demoted map[string]bool) *Exec {
	c := NewCtx()
	return &Exec{w: w, c: c, tm: NewTypeMap(c), q: &quickSolver{}, root: f, con: con, keyIDs: map[string]int{}, keySort: map[string]string{},
		globArr: map[string]*ssa.Global{}, globs: map[string]*ssa.Global{}, loops: map[string]*LoopRec{}, maxPaths: 4000, inlined: map[string]bool{},
		initBusy: map[string]bool{}, fnAx: map[*ssa.Function]*Term{}, ctrUsed: map[string]bool{}, assumed: map[string]bool{}, demoted: demoted}
}

func optDur(con *Contract, k string, d time.Duration) time.Duration {
	if v, ok := con.Opts[k]; ok {
		if p, err := time.ParseDuration(v); err == nil {
			return p
		}
	}
	return d
}

// verifyFunc discharges the contract of one function.
func verifyFunc(w *World, key string, demoted map[string]bool, budget time.Duration) (res *FuncResult) {
	con := w.specs.C[key]
	res = verifyFunc1(w, key, con, demoted, budget)
	if res.ok() {
		return
	}
	// a proof by unrolling that fails is retried with invariants, and the other way round
	c2 := *con
	c2.Opts = map[string]string{}
	n := 0
	for k, v := range con.Opts {
		if strings.HasPrefix(k, "unroll") || strings.HasPrefix(k, "peel") {
			n++
			continue
		}
		c2.Opts[k] = v
	}
	if n > 0 && len(con.Invs) > 0 {
		if r2 := verifyFunc1(w, key, &c2, demoted, budget); r2.ok() {
			return r2
		}
	}
	return
}

func verifyFunc1(w *World, key string, con *Contract, demoted map[string]bool, budget time.Duration) (res *FuncResult) {
	res = &FuncResult{Key: key, Kind: "func", Helper: con.Helper}
	t0 := time.Now()
	defer func() { res.Dur = time.Since(t0) }()
	fkey, _, _ := strings.Cut(key, "#")
	f := w.funcs[fkey]
	if f == nil || len(f.Blocks) == 0 {
		res.Err = "function not found in the current source"
		return
	}
	if !w.sigOK(con, f) {
		res.Err = "the function's signature no longer matches its contract"
		return
	}
	x := newExec(w, f, con, demoted)
	defer x.q.close()
	x.deadline = time.Now().Add(optDur(con, "budget", budget))
	if n, ok := con.Opts["paths"]; ok {
		fmt.Sscan(n, &x.maxPaths)
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsup)
			if !ok {
				panic(r)
			}
			res.Err = u.msg
			if x.curInstr != nil {
				res.Err += " (near " + x.pos(x.curInstr.Pos()) + ")"
			}
			x.fill(res)
		}
	}()
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsup("invariant inference did not stabilise"))
		}
		x.round = round
		x.begin()
		x.run()
		if debug {
			fmt.Fprintf(os.Stderr, "[%s] round %d paths %d cands %d changed %v quick %d/%v\n", shortKey(key), round, x.paths, len(x.cands), x.changed, x.q.n, x.q.t)
		}
		res.Rounds = round + 1
		if x.changed {
			continue
		}
		if x.checkCands() {
			continue
		}
		break
	}
	x.final = true
	x.begin()
	x.run()
	if x.changed {
		panic(unsup("loop analysis changed in the final pass"))
	}
	x.fill(res)
	x.vacuity(res)
	x.discharge(res, optDur(con, "first", 5*time.Second), optDur(con, "full", 40*time.Second))
	return
}

func (x *Exec) fill(res *FuncResult) {
	res.Paths = x.paths
	res.Obls = x.obls
	res.Trivial = x.trivial
	res.Loops = len(x.loops)
	for _, k := range sortedKeys(x.ctrUsed) {
		res.Uses = append(res.Uses, k)
	}
	for _, k := range sortedKeys(x.inlined) {
		res.Inlined = append(res.Inlined, k)
	}
	for _, k := range sortedKeys(x.assumed) {
		res.Assumed = append(res.Assumed, k)
	}
	for _, k := range sortedKeys(x.loops) {
		for _, n := range x.loops[k].order {
			if cd := x.loops[k].cands[n]; !cd.dropped {
				s := n
				if cd.user {
					s = n + ": " + cd.src
				}
				res.Invs = append(res.Invs, s)
			}
		}
	}
	res.Solver = x.q.t
}

func (x *Exec) begin() {
	x.changed = false
	x.cands = nil
	x.obls = nil
	x.paths, x.rets = 0, 0
	x.retPaths = nil
	x.trivial, x.quickN = 0, 0
}

func (x *Exec) newState() *State {
	c := x.c
	st := &State{heap: map[string]*Term{}, cells: map[int]cell{}, ghost: map[string]*Term{}, next: x.entryNext(), closures: map[*Term]*Closure{}, addrs: map[*Term]*Addr{}, lockSt: map[string]*State{}, held: map[string]bool{}}
	x.assume(st, c.Lt(c.Int(0), st.next))
	return st
}

// run symbolically executes the function once.
func (x *Exec) run() {
	c := x.c
	f, con := x.root, x.con
	st := x.newState()
	var args []Val
	env := &Env{x: x, st: st, vars: map[string]TV{}, fn: f, con: con, pol: 1}
	env.pkg = x.w.pkgOf(con.Pkg)
	for i, p := range f.Params {
		t := c.Const(fmt.Sprintf("p%d$%s", i, clean(con.Params[i])), x.tm.Sort(p.Type()))
		x.fact(st, t, p.Type())
		if i == 0 && f.Signature.Recv() != nil && con.Opts["nilrecv"] == "" {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				x.assume(st, c.Lt(c.Int(0), t))
			}
		}
		v := Val{T: t}
		args = append(args, v)
		env.vars[con.Params[i]] = TV{v: v, t: p.Type()}
	}
	x.lemmas = x.lemmaTerms(con.Uses, st, f)
	for _, cl := range x.w.specs.Facts {
		e2 := *env
		e2.pkg = x.w.pkgOf(cl.Name)
		if e2.pkg == env.pkg || x.imports(env.pkg, e2.pkg) {
			x.assume(st, x.evalBool(cl.E, &e2))
		}
	}
	for _, r := range con.Requires {
		x.assume(st, x.evalBool(r.E, env))
	}
	for _, l := range con.Lets {
		env.vars[l.Name] = x.rv(x.eval(l.E, env), env)
	}
	x.entryEnv = env.vars
	x.entry = st.clone()
	if len(f.FreeVars) > 0 {
		panic(unsup("closure under contract"))
	}
	x.enter(st, f, nil, args, func(st *State, out []Val) { x.atReturn(st, out) })
}

func (x *Exec) imports(a, b *types.Package) bool {
	if a == nil || b == nil {
		return false
	}
	for _, p := range a.Imports() {
		if p == b {
			return true
		}
	}
	return false
}

func clauseName(cl *Clause, kind string, i int) string {
	if cl.Name != "" {
		return kind + ":" + cl.Name
	}
	h := fnv.New32a()
	h.Write([]byte(cl.Src))
	return fmt.Sprintf("%s#%d", kind, i+1)
}

func (x *Exec) atReturn(st *State, out []Val) {
	con := x.con
	x.rets++
	fk := shortKey(con.Key)
	vars := cp(x.entryEnv)
	rts := resultTypes(x.root.Signature)
	for i := range out {
		if i < len(con.Results) {
			vars[con.Results[i]] = TV{v: out[i], t: rts[i]}
		}
	}
	// interior closures and pointers as results become terms
	env := &Env{x: x, st: st, old: x.entry, vars: vars, fn: x.root, con: con, pol: -1}
	env.pkg = x.w.pkgOf(con.Pkg)
	x.retPaths = append(x.retPaths, st.assumptions())
	pos := x.root.Pos()
	for _, e := range con.Sets {
		k := "ghost:" + e.Name
		s := x.ghostSort(e.Name)
		x.keySort[k] = s
		st.heap[k] = x.term(st, x.rv(x.eval(e.E, env), env).v)
	}
	base := st.as
	for i, e := range con.Ensures {
		st.as = base // each postcondition is proved on its own
		x.oblige(st, "ensures", fk+"/"+clauseName(e, "ensures", i), pos, x.evalBool(e.E, env))
	}
	st.as = base
	x.frame(st, env, fk)
}

// frame: everything not named in modifies is unchanged.
func (x *Exec) frame(st *State, env *Env, fk string) {
	c := x.c
	con := x.con
	if con.ModAll {
		return
	}
	// the expected heap: the entry heap with the named locations replaced by their current values
	type exc struct {
		ref  *Term
		fix  func(cur, init *Term) *Term // expected object given current and initial object
		cond *Term
	}
	exs := map[string][]exc{}
	all := map[string]bool{}
	e0 := *env
	e0.st = x.entry
	e0.cur = st
	for _, m := range con.Modifies {
		x.frameTarget(st, m.E, &e0, func(k string, ref *Term, fix func(cur, init *Term) *Term) {
			if ref == nil {
				all[k] = true
				return
			}
			exs[k] = append(exs[k], exc{ref: ref, fix: fix})
		})
	}
	for k := range x.w.monKeys(x, st) {
		all[k] = true
	}
	all["ghost:lastNow"] = true
	all["ghost:chRecv"] = true // a fact of the running goroutine only
	base := st.as
	for _, k := range sortedKeys(st.heap) {
		if all[k] {
			continue
		}
		cur := st.heap[k]
		init := x.heapGet(&State{heap: map[string]*Term{}}, k, x.keySort[k])
		if cur == init {
			continue
		}
		st.as = base
		name := fk + "/frame:" + shortHeapKey(k)
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "ghost:") {
			x.oblige(st, "frame", name, x.root.Pos(), c.Eq(cur, init))
			continue
		}
		b := c.Bound("r", "Int")
		cond := []*Term{c.Lt(b, x.entryNext()), c.Lt(c.Int(0), b)}
		for _, e := range exs[k] {
			cond = append(cond, c.Ne(b, e.ref))
		}
		goal := c.Forall([]*Term{b}, c.Imp(c.And(cond...), c.Eq(c.Select(cur, b), c.Select(init, b))))
		x.oblige(st, "frame", name, x.root.Pos(), goal)
		for i, e := range exs[k] {
			// several exceptions for one object: apply all
			want := c.Select(init, e.ref)
			cu := c.Select(cur, e.ref)
			skip := false
			for j, e2 := range exs[k] {
				if e2.ref == e.ref {
					if j < i {
						skip = true
					}
					want = e2.fix(cu, want)
				}
			}
			if skip {
				continue
			}
			var others []*Term
			for _, e2 := range exs[k] {
				if e2.ref != e.ref {
					others = append(others, c.Ne(e2.ref, e.ref))
				}
			}
			st.as = base
			if strings.HasPrefix(want.sort, "(Array") && want.op == "!elems" {
				lo, hi := want.args[0], want.args[1]
				kk := c.Bound("k", "Int")
				g := c.Forall([]*Term{kk}, c.Imp(c.Or(c.Lt(kk, lo), c.Le(hi, kk)), c.Eq(c.Select(cu, kk), c.Select(c.Select(init, e.ref), kk))))
				x.oblige(st, "frame", name, x.root.Pos(), c.Imp(c.And(others...), g))
				continue
			}
			x.oblige(st, "frame", name, x.root.Pos(), c.Imp(c.And(others...), c.Eq(cu, want)))
		}
	}
	st.as = base
}

func shortHeapKey(k string) string {
	i := strings.Index(k, ":")
	return k[:i+1] + shortTypes(k[i+1:])
}

func (x *Exec) frameTarget(st *State, e *Expr, env *Env, add func(k string, ref *Term, fix func(cur, init *Term) *Term)) {
	c := x.c
	keep := func(cur, init *Term) *Term { return cur }
	addrTarget := func(a *Addr) {
		switch a.kind {
		case aGlob:
			add(a.key, nil, nil)
		case aHeap:
			_, k := x.heapOf(st, a.typ)
			add(k, a.ref, func(cur, init *Term) *Term { return x.setPath(init, a.path, x.getPath(cur, a.path)) })
		case aArr:
			_, k := x.memOf(st, a.typ)
			add(k, a.ref, keep)
		case aMem:
			_, k := x.memOf(st, a.typ)
			p := append([]pathEl{{idx: a.idx}}, a.path...)
			add(k, a.ref, func(cur, init *Term) *Term { return x.setPath(init, p, x.getPath(cur, p)) })
		}
	}
	if e.Op == "call" && e.Args[0].Op == "id" {
		switch e.Args[0].Name {
		case "elems", "array":
			s := x.rv(x.eval(e.Args[1], env), env)
			t := x.term(st, s.v)
			_, k := x.memOf(st, under(s.t).(*types.Slice).Elem())
			if e.Args[0].Name == "array" {
				add(k, c.Sel(t, 0), keep)
			} else {
				o, l := c.Sel(t, 1), c.Sel(t, 2)
				add(k, c.Sel(t, 0), func(cur, init *Term) *Term { return c.mk("!elems", cur.sort, o, c.Add(o, l)) })
			}
			return
		case "mapof":
			s := x.rv(x.eval(e.Args[1], env), env)
			_, k, _ := x.mapOf(st, under(s.t).(*types.Map))
			add(k, x.term(st, s.v), keep)
			return
		case "heap":
			t := x.heapArgType(e.Args[1], env)
			_, k := x.heapOf(st, t)
			add(k, nil, nil)
			return
		case "mem":
			t := x.memArgType(e.Args[1], env)
			_, k := x.memOf(st, t)
			add(k, nil, nil)
			return
		case "maps":
			s := x.rv(x.eval(e.Args[1], env), env)
			_, k, _ := x.mapOf(st, under(s.t).(*types.Map))
			add(k, nil, nil)
			return
		case "ghost":
			add("ghost:"+e.Args[1].Name, nil, nil)
			return
		}
	}
	if e.Op == "un" && e.Name == "*" {
		s := x.rv(x.eval(e.Args[0], env), env)
		addrTarget(x.addr(env.st, s.v, s.t))
		return
	}
	if e.Op == "id" {
		if g, k, _ := x.w.global(env, e.Name); g != nil {
			add(k, nil, nil)
			return
		}
	}
	if e.Op == "sel" {
		addrTarget(x.fieldAddr(e, env))
		return
	}
	panic(unsup("modifies target %s", exprStr(e)))
}

// fieldAddr gives the address of base.field for a pointer base (through embedded structs).
func (x *Exec) fieldAddr(e *Expr, env *Env) *Addr {
	var base func(e *Expr) (*Addr, types.Type)
	base = func(e *Expr) (*Addr, types.Type) {
		if e.Op == "sel" {
			// p.f where the value of p.f is a pointer, or p.f nested struct
			if a, t := func() (a *Addr, t types.Type) {
				b, bt := base(e.Args[0])
				if b == nil {
					return nil, nil
				}
				path, ft := fieldPath(bt, e.Name)
				for _, i := range path {
					b = b.sub(pathEl{field: i})
				}
				return b, ft
			}(); a != nil {
				if p, ok := under(t).(*types.Pointer); ok {
					v := x.loadAt(env, a)
					return x.addr(env.st, v, t), p.Elem()
				}
				return a, t
			}
		}
		v := x.rv(x.eval(e, env), env)
		if p, ok := under(v.t).(*types.Pointer); ok {
			return x.addr(env.st, v.v, v.t), p.Elem()
		}
		return nil, nil
	}
	b, bt := base(e.Args[0])
	if b == nil {
		panic(unsup("modifies target %s", exprStr(e)))
	}
	path, _ := fieldPath(bt, e.Name)
	for _, i := range path {
		b = b.sub(pathEl{field: i})
	}
	return b
}

func (x *Exec) heapArgType(e *Expr, env *Env) (t types.Type) {
	if e.Op == "id" || e.Op == "sel" || e.Op == "str" || e.Op == "idx" {
		func() {
			defer func() { recover() }()
			t = x.resolveType(typeText(e), env)
		}()
		if t != nil {
			return t
		}
	}
	s := x.rv(x.eval(e, env), env)
	return deref(s.t)
}
func (x *Exec) memArgType(e *Expr, env *Env) (t types.Type) {
	if e.Op == "id" || e.Op == "sel" || e.Op == "str" || e.Op == "idx" {
		func() {
			defer func() { recover() }()
			t = x.resolveType(typeText(e), env)
		}()
		if t != nil {
			return t
		}
	}
	s := x.rv(x.eval(e, env), env)
	return under(s.t).(*types.Slice).Elem()
}

// monKeys: heap parts protected by a monitor entered on this path are exempt from the frame.
func (w *World) monKeys(x *Exec, st *State) map[string]bool {
	out := map[string]bool{}
	for k := range st.held {
		if strings.HasPrefix(k, "mod:") {
			out[k[4:]] = true
		}
	}
	return out
}

// lemmaTerms turns the listed axioms and lemmas into assumptions.
func (x *Exec) lemmaTerms(names []string, st *State, f *ssa.Function) []*Term {
	var out []*Term
	for _, n := range names {
		l := x.w.specs.Lemmas[n]
		if l == nil {
			panic(unsup("unknown lemma %s", n))
		}
		if l.Axiom {
			x.assumed["axiom "+n] = true
		} else {
			x.ctrUsed["lemma "+n] = true
		}
		out = append(out, x.lemmaTerm(l, st, f, nil))
	}
	return out
}

func (x *Exec) lemmaTerm(l *Lemma, st *State, f *ssa.Function, extra func(vs map[string]TV) *Term) *Term {
	c := x.c
	env := &Env{x: x, st: st, vars: map[string]TV{}, fn: f, pkg: x.w.pkgOf(l.Pkg), pol: 1}
	var bvs []*Term
	var hyps []*Term
	for _, d := range l.Vars {
		t := x.resolveType(d.Type, env)
		b := c.Bound(d.Name, x.tm.Sort(t))
		bvs = append(bvs, b)
		env.vars[d.Name] = tt(b, t)
		if d.Type != "int" && d.Type != "ref" {
			if g := x.tm.Fact(b, t, st.next, 1); !g.isTrue() {
				hyps = append(hyps, g)
			}
		}
	}
	if extra != nil {
		hyps = append(hyps, extra(env.vars))
	}
	for _, r := range l.Requires {
		hyps = append(hyps, x.evalBool(r.E, env.flip()))
	}
	var gs []*Term
	for _, e := range l.Ensures {
		gs = append(gs, x.evalBool(e.E, env))
	}
	body := c.Imp(c.And(hyps...), c.And(gs...))
	if len(bvs) == 0 {
		return body
	}
	var trig [][]*Term
	for _, g := range l.Trig {
		var ts []*Term
		for _, t := range g {
			ts = append(ts, x.evalT(t, env.nopol()))
		}
		trig = append(trig, ts)
	}
	if len(trig) == 0 {
		trig = x.autoTrig(bvs, body)
	}
	return c.Forall(bvs, body, trig...)
}

// verifyLemma proves a lemma from its listed dependencies.
func verifyLemma(w *World, name string) (res *FuncResult) {
	l := w.specs.Lemmas[name]
	res = &FuncResult{Key: "lemma " + name, Kind: "lemma"}
	t0 := time.Now()
	defer func() { res.Dur = time.Since(t0) }()
	x := newExec(w, nil, &Contract{Key: "lemma." + name, Pkg: l.Pkg, Opts: map[string]string{}}, nil)
	defer x.q.close()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsup)
			if !ok {
				panic(r)
			}
			res.Err = u.msg
		}
	}()
	x.final = true
	x.deadline = time.Now().Add(time.Minute)
	c := x.c
	st := x.newState()
	env := &Env{x: x, st: st, vars: map[string]TV{}, pkg: w.pkgOf(l.Pkg), pol: 1}
	for _, d := range l.Vars {
		t := x.resolveType(d.Type, env)
		v := c.Const("l$"+d.Name, x.tm.Sort(t))
		if d.Type != "int" && d.Type != "ref" {
			x.fact(st, v, t)
		}
		env.vars[d.Name] = tt(v, t)
	}
	x.entry = st
	x.lemmas = x.lemmaTerms(l.Uses, st, nil)
	for _, r := range l.Requires {
		x.assume(st, x.evalBool(r.E, env))
	}
	if l.Induct != "" {
		m := parseExpr(l.Induct) // a variable or a measure over the variables
		me := x.evalT(m, env)
		ih := x.lemmaTerm(l, st, nil, func(vs map[string]TV) *Term {
			o := x.evalT(m, &Env{x: x, st: st, vars: vs, pkg: w.pkgOf(l.Pkg)})
			return c.And(c.Le(c.Int(0), o), c.Lt(o, me))
		})
		x.assume(st, ih)
		// well-founded only for non-negative values: negative ones must follow without the hypothesis
	}
	x.retPaths = append(x.retPaths, append(st.assumptions(), x.lemmas...))
	g := *env
	g.pol = -1
	for i, e := range l.Ensures {
		x.oblige(st, "lemma", "lemma "+name+"/"+clauseName(e, "ensures", i), 0, x.evalBool(e.E, &g))
	}
	x.fill(res)
	x.vacuity(res)
	x.discharge(res, 5*time.Second, 40*time.Second)
	return
}

// vacuity: the assumptions of at least one complete path must not be contradictory, and there must be something to prove.
func (x *Exec) vacuity(res *FuncResult) {
	if len(x.retPaths) == 0 {
		if x.con.Opts["noreturn"] == "" {
			res.Err = "no path returns: the contract would hold vacuously"
		}
		return
	}
	n := 0
	for _, as := range x.retPaths {
		if n >= 12 {
			return
		}
		n++
		s := x.c.Script(append(append([]*Term{}, as...), x.lemmas...), nil, false)
		if prove(s, time.Second, 0).status != "unsat" {
			return
		}
	}
	if n == len(x.retPaths) || n >= 12 {
		res.Err = "every returning path has contradictory assumptions: the contract would hold vacuously"
	}
}

func (x *Exec) discharge(res *FuncResult, first, full time.Duration) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := map[string]int{}
	scripts := make([]string, len(res.Obls))
	for i, o := range res.Obls {
		if !o.quick {
			scripts[i] = x.c.Script(o.as, o.goal, false)
		}
	}
	jobs := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				o := res.Obls[i]
				mu.Lock()
				nf := failed[o.Name]
				tot := 0
				for _, n := range failed {
					tot += n
				}
				mu.Unlock()
				if nf >= 2 || tot >= 6 {
					o.Res = proveRes{status: "skipped"}
				} else {
					o.Res = prove(scripts[i], first, full)
				}
				if o.Res.status != "unsat" {
					mu.Lock()
					failed[o.Name]++
					mu.Unlock()
				}
			}
		}()
	}
	for i, o := range res.Obls {
		if !o.quick {
			jobs <- i
		}
	}
	close(jobs)
	wg.Wait()
	for i, o := range res.Obls {
		res.Solver += o.Res.dur
		if o.Res.status != "unsat" {
			if o.Res.status == "sat" && o.Res.model == "" && len(res.Failed) < 3 {
				o.Res.model = modelOf(scripts[i])
			}
			res.Failed = append(res.Failed, o)
		}
	}
	sort.SliceStable(res.Failed, func(i, j int) bool { return res.Failed[i].Res.status == "sat" && res.Failed[j].Res.status != "sat" })
	if dumpDir != "" {
		for i, o := range res.Failed {
			if i < 5 {
				os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", dumpDir, clean(o.Name), i), []byte(x.c.Script(o.as, o.goal, false)), 0o644)
			}
		}
	}
}

// checkCands proves the candidate invariants that are still alive; reports whether any was dropped.
func (x *Exec) checkCands() bool {
	type group struct {
		as    []*Term
		items []*candCheck
	}
	groups := map[string]*group{}
	var order []string
	for _, cc := range x.cands {
		if cc.c.dropped {
			continue
		}
		k := fmt.Sprint(len(cc.as))
		if n := len(cc.as); n > 0 {
			h := fnv.New64a()
			for _, a := range cc.as {
				fmt.Fprintf(h, "%d,", a.id)
			}
			k += fmt.Sprint(":", h.Sum64())
		}
		g := groups[k]
		if g == nil {
			g = &group{as: cc.as}
			groups[k] = g
			order = append(order, k)
		}
		g.items = append(g.items, cc)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sm := make(chan struct{}, 8)
	dropped := false
	type job struct {
		script string
		items  []*candCheck
		single []string
	}
	var jobs []job
	for _, k := range order {
		g := groups[k]
		for len(g.items) > 0 {
			n := min(len(g.items), 4)
			for i := range n { // candidates that may be tried at length get their own job
				if g.items[i].c.user || g.items[i].c.retry() {
					n = max(i, 1)
					break
				}
			}
			it := g.items[:n]
			g.items = g.items[n:]
			var goals []*Term
			var single []string
			for _, cc := range it {
				goals = append(goals, cc.goal)
				s := ""
				if cc.c.user || cc.c.retry() {
					s = x.c.Script(cc.as, cc.goal, false)
				}
				single = append(single, s)
			}
			jobs = append(jobs, job{x.c.BatchScript(g.as, goals), it, single})
		}
	}
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			sm <- struct{}{}
			defer func() { <-sm; wg.Done() }()
			mu.Lock()
			alive := false
			for _, cc := range j.items {
				if !cc.c.dropped {
					alive = true
				}
			}
			mu.Unlock()
			if !alive {
				return
			}
			st := proveBatch(j.script, len(j.items), 1500)
			for i, cc := range j.items {
				ok := st[i] == "unsat"
				if !ok && (cc.c.user || st[i] != "sat" && cc.c.retry()) {
					mu.Lock()
					d := cc.c.dropped
					mu.Unlock()
					if !d {
						if cc.c.user {
							ok = prove(j.single[i], 4*time.Second, optDur(x.con, "candfull", 6*time.Second)).status == "unsat"
						} else {
							ok = prove(j.single[i], time.Second, 2*time.Second).status == "unsat"
						}
					}
				}
				if !ok {
					mu.Lock()
					if !cc.c.dropped {
						if debug && (cc.c.user || debugAll) {
							fmt.Fprintf(os.Stderr, "  [%s] drop %s: %s at %s (%s) %s\n", shortKey(x.con.Key), trunc(cc.rec.key[max(0,len(cc.rec.key)-12):],12), cc.c.key, cc.at, st[i], cc.c.src)
							if dumpDir != "" && j.single[i] != "" {
								os.WriteFile(fmt.Sprintf("%s/cand.%s.%s.%s.smt2", dumpDir, clean(cc.rec.key[max(0,len(cc.rec.key)-12):]), clean(cc.c.key), cc.at), []byte(j.single[i]), 0o644)
							}
						}
						cc.c.dropped = true
						dropped = true
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return dropped
}

// retry: bounds worth a second attempt with the whole portfolio when the quick one cannot tell.
func (c *cand) retry() bool {
	return strings.HasPrefix(c.key, "N<=") || strings.HasPrefix(c.key, "le ") && strings.Contains(c.key, "pre:") || strings.HasPrefix(c.key, "lt ")
}
