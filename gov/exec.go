package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cont func(st *State, res []Val)

// Oblig is one proof obligation on one path.
type Oblig struct {
	Name  string
	Kind  string
	Pos   string
	as    []*Term
	goal  *Term
	Trace []string
	Res   proveRes
	quick bool
}

// Exec verifies one function.
type Exec struct {
	targs map[string]types.Type // type arguments for the next contract call
	fnIdx    map[*Term]int
	w        *World
	c        *Ctx
	tm       *TypeMap
	q        *quickSolver
	root     *ssa.Function
	con      *Contract
	keyIDs   map[string]int
	initBusy map[string]bool
	fnAx     map[*ssa.Function]*Term
	keyList  []string
	keySort  map[string]string
	globArr  map[string]*ssa.Global
	globs    map[string]*ssa.Global
	loops    map[string]*LoopRec
	changed  bool
	obls     []*Oblig
	cands    []*candCheck
	entry    *State
	entryEnv map[string]TV
	paths    int
	rets     int
	retPaths [][]*Term
	maxPaths int
	inlined  map[string]bool
	ctrUsed  map[string]bool
	assumed  map[string]bool
	demoted  map[string]bool
	final    bool
	deadline time.Time
	curInstr ssa.Instruction
	sinceFeas int
	trivial  int
	quickN   int
	ovf      int
	lemmas   []*Term
	round    int
	bigEnv   *Env
	clDepth  int
	pathDead int
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, x.w.dir+"/") + fmt.Sprintf(":%d", q.Line)
}

// feasible asks the quick solver whether cond is consistent with the path.
func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond.isFalse() {
		return false
	}
	as := st.assumptions()
	s := x.c.Script(append(as, cond), nil, true)
	r := x.q.check(s, 400) != "unsat"
	if !r && os.Getenv("GOV_DBG") != "" {
		os.WriteFile(fmt.Sprintf("%s/infeas%d.smt2", os.Getenv("GOV_DBG"), x.q.n), []byte(s), 0o644)
	}
	return r
}

// entails reports whether the quantifier-free part of the path entails t.
func (x *Exec) entails(st *State, t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() || t.quan {
		return false
	}
	s := x.c.Script(st.assumptions(), t, true)
	return x.q.check(s, 250) == "unsat"
}

// oblige records an obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	if goal.isTrue() {
		x.trivial++
		return
	}
	if !goal.quan && x.entails(st, goal) {
		x.quickN++
		if x.final {
			x.obls = append(x.obls, &Oblig{Name: name, Kind: kind, Pos: x.pos(pos), quick: true, Res: proveRes{status: "unsat", solver: "z3-5.3"}})
		}
	} else if x.final {
		x.obls = append(x.obls, &Oblig{Name: name, Kind: kind, Pos: x.pos(pos), as: append(st.assumptions(), x.lemmas...), goal: goal, Trace: append([]string{}, st.trace...)})
	}
	x.assume(st, goal)
}

func (x *Exec) safety(st *State, what string, instr ssa.Instruction, goal *Term) {
	if goal.isTrue() {
		x.trivial++
		return
	}
	// a panic is permitted where the contract says so
	if x.con != nil && len(x.con.Panics) > 0 {
		g := goal
		for _, p := range x.con.Panics {
			g = x.c.Or(g, x.evalBool(p.E, &Env{x: x, st: x.entry, old: x.entry, vars: x.entryEnv, fn: x.root, pol: -1}))
		}
		x.oblige(st, "safety", what, instr.Pos(), g)
		x.assume(st, goal)
		return
	}
	x.oblige(st, "safety", what, instr.Pos(), goal)
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch u := v.(type) {
	case *ssa.Const:
		return x.constVal(u)
	case *ssa.Function:
		return Val{C: &Closure{fn: u, id: x.c.Const("fn$"+clean(u.String()), "Int")}}
	case *ssa.Global:
		t := u.Type().(*types.Pointer).Elem()
		if ar, ok := under(t).(*types.Array); ok {
			k := "g:" + u.String()
			ref := x.c.Const("garr$"+clean(u.String()), "Int")
			x.globArr[k] = u
			x.assume(st, x.c.And(x.c.Lt(x.c.Int(0), ref), x.c.Lt(ref, x.entryNext())))
			if k, ok := x.w.initConst[u]; (x.w.initN[u] == 0 || x.w.initN[u] == 1 && ok && k.Value == nil) && !x.w.mutGlob[u] && x.w.inRepoPkg(u.Pkg) {
				m, _ := x.memOf(st, ar.Elem())
				x.assume(st, x.c.Eq(x.c.Select(m, ref), x.tm.Zero(t)))
			}
			return Val{A: &Addr{kind: aArr, typ: ar.Elem(), n: ar.Len(), ref: ref}}
		}
		_, k := x.globOf(st, u)
		return Val{A: &Addr{kind: aGlob, typ: t, key: k}}
	case *ssa.Builtin:
		return Val{}
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		panic(unsup("undefined value %s in %s", v.Name(), f.fn))
	}
	return r
}

func (x *Exec) entryNext() *Term { return x.c.Const("next0", "Int") }

func (x *Exec) constVal(u *ssa.Const) Val {
	c := x.c
	t := u.Type()
	if u.Value == nil {
		return Val{T: x.tm.Zero(t)}
	}
	switch u.Value.Kind() {
	case constant.Bool:
		return Val{T: c.Bool(constant.BoolVal(u.Value))}
	case constant.String:
		return Val{T: c.Str(constant.StringVal(u.Value))}
	case constant.Int:
		if x.tm.Sort(t) == "Flt" {
			return Val{T: c.Const("flt$"+clean(u.Value.ExactString()), "Flt")}
		}
		n, ok := new(big.Int).SetString(u.Value.ExactString(), 10)
		if !ok {
			panic(unsup("const %s", u))
		}
		return Val{T: c.Num(n)}
	case constant.Float:
		if x.tm.Sort(t) == "Int" {
			n, _ := new(big.Int).SetString(constant.ToInt(u.Value).ExactString(), 10)
			return Val{T: c.Num(n)}
		}
		return Val{T: c.Const("flt$"+clean(u.Value.ExactString()), "Flt")}
	}
	panic(unsup("const %s", u))
}

func (x *Exec) tv(st *State, v ssa.Value) *Term { return x.term(st, x.val(st, v)) }

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.top().env[v] = r }

// setDef names large terms.
func (x *Exec) def(st *State, hint string, t *Term) *Term {
	if t.size < 400 || len(t.fv) > 0 {
		return t
	}
	n := x.fr(st, hint, t.sort)
	x.assume(st, x.c.mk("=", "Bool", n, t))
	return n
}

func (x *Exec) checkBudget() {
	if time.Now().After(x.deadline) {
		panic(unsup("time budget for the function exhausted"))
	}
}

// block enters b from prev.
func (x *Exec) block(st *State, b, prev *ssa.BasicBlock, k cont) {
	x.checkBudget()
	f := st.top()
	lps := x.w.loopsOf(f.fn)
	// leave loops that do not contain b
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].lp.body[b] {
		f.loops = f.loops[:len(f.loops)-1]
	}
	// evaluate phis simultaneously
	var phis []*ssa.Phi
	var vals []Val
	if prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
				break
			}
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, x.val(st, ph.Edges[pi]))
		}
	}
	if lp := lps[b]; lp != nil {
		if len(f.loops) > 0 && f.loops[len(f.loops)-1].lp == lp {
			x.loopBack(st, lp, phis, vals)
			x.paths++
			return
		}
		visit := 0
		if prev != nil && lp.body[prev] {
			visit = f.unr[lp] + 1
		}
		f.unr[lp] = visit
		mode, n := x.loopMode(f.fn, lp)
		switch {
		case mode == "unroll" && visit > n:
			x.oblige(st, "unwind", fmt.Sprintf("unwind %s loop %d within %d iterations", f.fn.Name(), lp.idx, n), lp.head.Instrs[0].Pos(), x.c.False())
			x.paths++
			return
		case mode == "unroll" || mode == "peel" && visit < n:
			for i, ph := range phis {
				x.set(st, ph, vals[i])
			}
			if visit > 0 && visit%4 == 0 && !x.feasible(st, x.c.True()) {
				x.paths++
				return
			}
		default:
			if !x.loopEnter(st, lp, phis, vals) {
				return
			}
		}
	} else {
		for i, ph := range phis {
			x.set(st, ph, vals[i])
		}
	}
	x.instrs(st, b, len(phis), k)
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int, k cont) {
	c := x.c
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.curInstr = in
		switch u := in.(type) {
		case *ssa.Phi:
			panic(unsup("phi"))
		case *ssa.DebugRef:
			if id, ok := u.Expr.(interface{ String() string }); ok {
				_ = id
			}
			x.debugRef(st, u)
		case *ssa.If:
			cond := x.tv(st, u.Cond)
			cond = x.nullCond(cond)
			t, e := b.Succs[0], b.Succs[1]
			if cond.isTrue() {
				x.block(st, t, b, k)
				return
			}
			if cond.isFalse() {
				x.block(st, e, b, k)
				return
			}
			ft := x.feasible(st, cond)
			fe := x.feasible(st, c.Not(cond))
			if ft && fe {
				s2 := st.clone()
				x.assume(s2, cond)
				s2.trace = append(s2.trace, x.pos(u.Cond.Pos())+" true")
				x.block(s2, t, b, k)
				x.assume(st, c.Not(cond))
				st.trace = append(st.trace, x.pos(u.Cond.Pos())+" false")
				x.block(st, e, b, k)
			} else if ft {
				x.assume(st, cond)
				x.block(st, t, b, k)
			} else if fe {
				x.assume(st, c.Not(cond))
				x.block(st, e, b, k)
			} else {
				x.pathDead++
			}
			return
		case *ssa.Jump:
			x.block(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range u.Results {
				res = append(res, x.val(st, r))
			}
			x.paths++
			if x.paths > x.maxPaths {
				panic(unsup("more than %d paths", x.maxPaths))
			}
			st.frames = st.frames[:len(st.frames)-1]
			k(st, res)
			return
		case *ssa.RunDefers:
			x.runDefers(st, func(st *State) { x.instrs(st, b, i+1, k) })
			return
		case *ssa.Panic:
			x.safety(st, "panic-unreachable", in, c.False())
			return
		case *ssa.Defer:
			f := st.top()
			d := deferred{call: &u.Call}
			if !u.Call.IsInvoke() {
				if _, ok := u.Call.Value.(*ssa.Builtin); !ok {
					d.fn = x.val(st, u.Call.Value)
				}
			} else {
				d.fn = x.val(st, u.Call.Value)
			}
			for _, a := range u.Call.Args {
				d.args = append(d.args, x.val(st, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.Go:
			x.note("goroutine started in " + st.top().fn.String() + " is not followed")
		case *ssa.Call:
			ii := i
			fn := Val{}
			if u.Call.IsInvoke() {
				fn = x.val(st, u.Call.Value)
			} else if _, ok := u.Call.Value.(*ssa.Builtin); !ok {
				fn = x.val(st, u.Call.Value)
			}
			var args []Val
			for _, a := range u.Call.Args {
				args = append(args, x.val(st, a))
			}
			x.call(st, u, &u.Call, fn, args, func(st *State, res []Val) {
				if len(res) == 1 {
					x.set(st, u, res[0])
				} else if len(res) > 1 {
					x.set(st, u, Val{Tup: res})
				} else {
					x.set(st, u, Val{})
				}
				x.instrs(st, b, ii+1, k)
			})
			return
		case *ssa.TypeAssert:
			ii := i
			x.typeAssert(st, u, func(st *State) { x.instrs(st, b, ii+1, k) })
			return
		case *ssa.Next:
			ii := i
			x.next(st, u, func(st *State) { x.instrs(st, b, ii+1, k) })
			return
		case *ssa.Select:
			ii := i
			n := len(u.States)
			tt := u.Type().(*types.Tuple)
			lo := 0
			if !u.Blocking {
				lo = -1
			}
			for j := lo; j < n; j++ {
				s2 := st.clone()
				tup := []Val{{T: c.Int(int64(j))}, {T: x.fr(s2, "ok", "Bool")}}
				for q := 2; q < tt.Len(); q++ {
					v := x.fr(s2, "recv", x.tm.Sort(tt.At(q).Type()))
					x.fact(s2, v, tt.At(q).Type())
					tup = append(tup, Val{T: v})
				}
				if j >= 0 && u.States[j].Dir == types.RecvOnly {
					x.ghostStore(s2, "chRecv", x.term(s2, x.val(s2, u.States[j].Chan)), 1)
				}
				x.set(s2, u, Val{Tup: tup})
				x.instrs(s2, b, ii+1, k)
			}
			return
		default:
			x.simple(st, in)
		}
	}
	panic(unsup("fell off block"))
}

// ghostStore updates the ghost array name at ref, when the specifications declare it.
func (x *Exec) ghostStore(st *State, name string, ref *Term, v int64) {
	if _, ok := x.w.specs.Ghosts[name]; !ok {
		return
	}
	key := "ghost:" + name
	x.keySort[key] = x.ghostSort(name)
	st.heap[key] = x.c.Store(x.heapGet(st, key, x.keySort[key]), ref, x.c.Int(v))
}

func (x *Exec) nullCond(t *Term) *Term { return t }

func (x *Exec) note(s string) { x.assumed[s] = true }

func (x *Exec) debugRef(st *State, u *ssa.DebugRef) {
	obj := u.Object()
	if obj == nil {
		return
	}
	f := st.top()
	v, ok := f.env[u.X]
	if !ok {
		switch u.X.(type) {
		case *ssa.Const, *ssa.Function:
			v = x.val(st, u.X)
		default:
			return
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		return
	}
	if u.IsAddr {
		f.names[obj.Name()] = TV{v: v, t: types.NewPointer(obj.Type()), isAddr: true}
	} else {
		f.names[obj.Name()] = TV{v: v, t: obj.Type()}
	}
}

func (x *Exec) runDefers(st *State, k func(*State)) {
	f := st.top()
	if len(f.defers) == 0 {
		k(st)
		return
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	x.call(st, nil, d.call, d.fn, d.args, func(st *State, _ []Val) { x.runDefers(st, k) })
}

func (x *Exec) nonNil(st *State, a *Addr, in ssa.Instruction, what string) {
	if a.kind == aHeap || a.kind == aArr {
		if len(a.path) == 0 || a.ref != nil {
			x.safety(st, "nil-dereference "+what, in, x.c.Lt(x.c.Int(0), a.ref))
		}
	}
}

func (x *Exec) simple(st *State, in ssa.Instruction) {
	c := x.c
	switch u := in.(type) {
	case *ssa.Alloc:
		t := deref(u.Type())
		if ar, ok := under(t).(*types.Array); ok {
			r := x.newRef(st)
			m, k := x.memOf(st, ar.Elem())
			st.heap[k] = c.Store(m, r, x.tm.Zero(ar))
			x.set(st, u, Val{A: &Addr{kind: aArr, typ: ar.Elem(), n: ar.Len(), ref: r}})
			return
		}
		if !u.Heap || !x.w.escapes(u) {
			st.nocell++
			id := st.nocell
			st.cells[id] = cell{Val{T: x.tm.Zero(t)}, t}
			x.set(st, u, Val{A: &Addr{kind: aCell, typ: t, cell: id}})
			return
		}
		r := x.newRef(st)
		h, k := x.heapOf(st, t)
		st.heap[k] = c.Store(h, r, x.tm.Zero(t))
		x.set(st, u, Val{A: &Addr{kind: aHeap, typ: t, ref: r}})
	case *ssa.UnOp:
		x.unop(st, u)
	case *ssa.BinOp:
		x.set(st, u, Val{T: x.def(st, "b", x.binop(st, u.Op, x.val(st, u.X), x.val(st, u.Y), u.X.Type(), u.Y.Type(), u.Type(), in))})
	case *ssa.Store:
		a := x.addr(st, x.val(st, u.Addr), u.Addr.Type())
		x.nonNil(st, a, in, "")
		x.store(st, a, x.val(st, u.Val))
	case *ssa.FieldAddr:
		a := x.addr(st, x.val(st, u.X), u.X.Type())
		x.nonNil(st, a, in, "")
		x.set(st, u, Val{A: a.sub(pathEl{field: u.Field, ct: deref(u.X.Type())})})
	case *ssa.Field:
		t := c.Sel(x.tv(st, u.X), u.Field)
		x.fact(st, t, u.Type())
		x.set(st, u, x.retype(st, t))
	case *ssa.IndexAddr:
		idx := x.tv(st, u.Index)
		switch xt := under(u.X.Type()).(type) {
		case *types.Slice:
			s := x.tv(st, u.X)
			x.safety(st, "index-in-range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Sel(s, 2))))
			x.set(st, u, Val{A: &Addr{kind: aMem, typ: xt.Elem(), ref: c.Sel(s, 0), idx: c.Add(c.Sel(s, 1), idx)}})
		case *types.Pointer:
			ar := under(xt.Elem()).(*types.Array)
			a := x.addr(st, x.val(st, u.X), u.X.Type())
			x.nonNil(st, a, in, "")
			x.safety(st, "index-in-range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(ar.Len()))))
			if a.kind == aArr && len(a.path) == 0 {
				x.set(st, u, Val{A: &Addr{kind: aMem, typ: ar.Elem(), ref: a.ref, idx: idx}})
			} else {
				x.set(st, u, Val{A: a.sub(pathEl{idx: idx, ct: ar})})
			}
		default:
			panic(unsup("IndexAddr %s", u.X.Type()))
		}
	case *ssa.Index:
		idx := x.tv(st, u.Index)
		switch xt := under(u.X.Type()).(type) {
		case *types.Array:
			x.safety(st, "index-in-range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(xt.Len()))))
			t := c.Select(x.tv(st, u.X), idx)
			x.fact(st, t, u.Type())
			x.set(st, u, x.retype(st, t))
		case *types.Basic:
			s := x.tv(st, u.X)
			x.safety(st, "index-in-range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, x.slen(s))))
			t := x.sat(st, s, idx)
			x.set(st, u, Val{T: t})
		default:
			panic(unsup("Index %s", u.X.Type()))
		}
	case *ssa.Lookup:
		x.lookup(st, u)
	case *ssa.Slice:
		x.slice(st, u)
	case *ssa.MakeSlice:
		l, k := x.tv(st, u.Len), x.tv(st, u.Cap)
		x.safety(st, "make-length", in, c.And(c.Le(c.Int(0), l), c.Le(l, k)))
		x.assume(st, c.Le(k, c.Int(maxAlloc)))
		el := under(u.Type()).(*types.Slice).Elem()
		r := x.newRef(st)
		m, key := x.memOf(st, el)
		st.heap[key] = c.Store(m, r, c.ConstArr(arrSort(x.tm.Sort(el)), x.tm.Zero(el)))
		x.set(st, u, Val{T: c.Mk("Slice", r, c.Int(0), l, k)})
	case *ssa.MakeMap:
		r := x.newRef(st)
		mt := under(u.Type()).(*types.Map)
		h, key, ms := x.mapOf(st, mt)
		st.heap[key] = c.Store(h, r, x.emptyMap(ms))
		x.set(st, u, Val{T: r})
	case *ssa.MakeChan:
		r := x.newRef(st)
		x.ghostStore(st, "chClosed", r, 0)
		x.set(st, u, Val{T: r})
	case *ssa.MapUpdate:
		mt := under(u.Map.Type()).(*types.Map)
		m := x.tv(st, u.Map)
		x.safety(st, "nil-map-write", in, c.Lt(c.Int(0), m))
		x.mapUpdate(st, mt, m, x.tv(st, u.Key), x.tv(st, u.Value))
	case *ssa.MakeInterface:
		x.set(st, u, Val{T: x.box(st, x.val(st, u.X), u.X.Type())})
	case *ssa.ChangeInterface:
		x.set(st, u, x.val(st, u.X))
	case *ssa.ChangeType:
		v := x.val(st, u.X)
		if x.tm.Sort(u.Type()) == "Iface" && x.tm.Sort(u.X.Type()) != "Iface" {
			x.set(st, u, Val{T: x.box(st, v, u.X.Type())})
			return
		}
		if v.T != nil && x.tm.Sort(u.X.Type()) != x.tm.Sort(u.Type()) {
			if len(x.c.dtSel[x.c.dtOf[v.T.sort]]) == len(x.c.dtSel[x.c.dtOf[x.tm.Sort(u.Type())]]) && x.c.dtOf[v.T.sort] != "" {
				var as []*Term
				for i := range x.c.dtSel[x.c.dtOf[v.T.sort]] {
					as = append(as, c.Sel(v.T, i))
				}
				v = Val{T: c.Mk(x.tm.Sort(u.Type()), as...)}
			} else {
				panic(unsup("ChangeType %s -> %s", u.X.Type(), u.Type()))
			}
		}
		if v.A != nil && len(v.A.path) == 0 && v.A.kind == aHeap {
			a := *v.A
			a.typ = deref(u.Type())
			if x.tm.Sort(a.typ) != x.tm.Sort(v.A.typ) {
				panic(unsup("ChangeType pointer"))
			}
			if typeKey(a.typ) != typeKey(v.A.typ) {
				panic(unsup("ChangeType pointer %s", u))
			}
			v = Val{A: &a}
		}
		x.set(st, u, v)
	case *ssa.Convert:
		x.convert(st, u)
	case *ssa.MultiConvert:
		panic(unsup("MultiConvert"))
	case *ssa.SliceToArrayPointer:
		panic(unsup("SliceToArrayPointer"))
	case *ssa.MakeClosure:
		cl := &Closure{fn: u.Fn.(*ssa.Function)}
		for _, b := range u.Bindings {
			cl.bind = append(cl.bind, x.val(st, b))
		}
		x.set(st, u, Val{C: cl})
	case *ssa.Extract:
		t := x.val(st, u.Tuple)
		if t.Tup == nil {
			panic(unsup("extract"))
		}
		x.set(st, u, t.Tup[u.Index])
	case *ssa.Range:
		x.rangeStart(st, u)
	case *ssa.Send:
		x.note("channel send in " + st.top().fn.String() + " treated as having no effect on tracked state")
	default:
		panic(unsup("instruction %T in %s", in, st.top().fn))
	}
}

func (x *Exec) slen(s *Term) *Term {
	if v, ok := x.c.strVal[s]; ok {
		return x.c.Int(int64(len(v)))
	}
	return x.c.App("slen", "Int", s)
}
func (x *Exec) sat(st *State, s, i *Term) *Term {
	t := x.c.App("sat", "Int", s, i)
	if len(t.fv) == 0 {
		x.assume(st, x.c.And(x.c.Le(x.c.Int(0), t), x.c.Le(t, x.c.Int(255))))
	}
	return t
}

func (x *Exec) unop(st *State, u *ssa.UnOp) {
	c := x.c
	v := x.val(st, u.X)
	switch u.Op {
	case token.MUL:
		a := x.addr(st, v, u.X.Type())
		x.nonNil(st, a, u, "")
		x.set(st, u, x.load(st, a))
	case token.NOT:
		x.set(st, u, Val{T: c.Not(x.term(st, v))})
	case token.SUB:
		x.set(st, u, Val{T: x.wrap(st, c.Sub(c.Int(0), x.term(st, v)), u.Type())})
	case token.XOR:
		b := basicInt(u.Type())
		_, hi, _ := intRange(b)
		t := x.term(st, v)
		if b.Info()&types.IsUnsigned != 0 {
			x.set(st, u, Val{T: c.Sub(c.Num(hi), t)})
		} else {
			x.set(st, u, Val{T: c.Sub(c.Int(-1), t)})
		}
	case token.ARROW:
		t := u.Type()
		x.ghostStore(st, "chRecv", x.term(st, v), 1)
		if u.CommaOk {
			tt := t.(*types.Tuple)
			r := x.fr(st, "recv", x.tm.Sort(tt.At(0).Type()))
			x.fact(st, r, tt.At(0).Type())
			x.set(st, u, Val{Tup: []Val{{T: r}, {T: x.fr(st, "ok", "Bool")}}})
			return
		}
		r := x.fr(st, "recv", x.tm.Sort(t))
		x.fact(st, r, t)
		x.set(st, u, Val{T: r})
	default:
		panic(unsup("unop %s", u.Op))
	}
}

// wrap applies Go's wrap-around to a mathematical result.
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	c := x.c
	b := basicInt(typ)
	if b == nil {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if t.num != nil {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(t.num, lo)
		r.Mod(r, m)
		return c.Num(r.Add(r, lo))
	}
	in := c.And(c.Le(c.Num(lo), t), c.Le(t, c.Num(hi)))
	if len(t.fv) == 0 && x.entails(st, in) {
		return t
	}
	x.ovf++
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	w := c.Add(c.EMod(c.Sub(t, c.Num(lo)), c.Num(m)), c.Num(lo))
	r := x.fr(st, "wr", "Int")
	x.assume(st, c.Eq(r, c.Ite(in, t, w)))
	x.assume(st, c.And(c.Le(c.Num(lo), r), c.Le(r, c.Num(hi))))
	return r
}

func (x *Exec) eqVals(st *State, a, b *Term, typ types.Type) *Term {
	c := x.c
	if ar, ok := under(typ).(*types.Array); ok {
		if ar.Len() <= 64 {
			var cs []*Term
			for i := int64(0); i < ar.Len(); i++ {
				cs = append(cs, x.eqVals(st, c.Select(a, c.Int(i)), c.Select(b, c.Int(i)), ar.Elem()))
			}
			return c.And(cs...)
		}
		i := c.Bound("i", "Int")
		return c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(ar.Len()))), x.eqVals(st, c.Select(a, i), c.Select(b, i), ar.Elem())))
	}
	if s, ok := under(typ).(*types.Struct); ok && !isOpaque(a.sort) {
		if _, isTP := typ.(*types.TypeParam); !isTP {
			var cs []*Term
			for i := 0; i < s.NumFields(); i++ {
				cs = append(cs, x.eqVals(st, c.Sel(a, i), c.Sel(b, i), s.Field(i).Type()))
			}
			return c.And(cs...)
		}
	}
	return c.Eq(a, b)
}

func (x *Exec) binop(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, in ssa.Instruction) *Term {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if under(xt) != nil && x.tm.Sort(xt) == "Slice" { // comparison with nil
			a, b := x.term(st, xv), x.term(st, yv)
			if b == x.tm.Zero(xt) {
				r = c.Eq(c.Sel(a, 0), c.Int(0))
			} else {
				r = c.Eq(c.Sel(b, 0), c.Int(0))
			}
		} else {
			a, b := x.term(st, xv), x.term(st, yv)
			if a.sort == "Iface" && b.sort != "Iface" {
				b = x.box(st, yv, yt)
			} else if b.sort == "Iface" && a.sort != "Iface" {
				a = x.box(st, xv, xt)
			}
			r = x.eqVals(st, a, b, xt)
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	a, b := x.term(st, xv), x.term(st, yv)
	if a.sort == "Str" {
		switch op {
		case token.ADD:
			return x.concat(st, a, b)
		case token.LSS:
			return x.strLess(st, a, b)
		case token.GTR:
			return x.strLess(st, b, a)
		case token.LEQ:
			return c.Not(x.strLess(st, b, a))
		case token.GEQ:
			return c.Not(x.strLess(st, a, b))
		}
	}
	if a.sort == "Flt" {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return c.App("flt$"+clean(op.String())+fmt.Sprint(int(op)), "Bool", a, b)
		}
		return c.App("fltop$"+fmt.Sprint(int(op)), "Flt", a, b)
	}
	if a.sort == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	if a.sort != "Int" {
		panic(unsup("binop %s on %s", op, a.sort))
	}
	switch op {
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.ADD:
		return x.wrap(st, c.Add(a, b), rt)
	case token.SUB:
		return x.wrap(st, c.Sub(a, b), rt)
	case token.MUL:
		return x.wrap(st, c.Mul(a, b), rt)
	case token.QUO, token.REM:
		if in != nil {
			x.safety(st, "division-by-zero", in, c.Ne(b, c.Int(0)))
		}
		return x.divmod(st, op, a, b, rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, rt)
	case token.SHL, token.SHR:
		if in != nil && basicInt(yt) != nil && basicInt(yt).Info()&types.IsUnsigned == 0 {
			x.safety(st, "shift-non-negative", in, c.Le(c.Int(0), b))
		}
		return x.shift(st, op, a, b, rt)
	}
	panic(unsup("binop %s", op))
}

func (x *Exec) divmod(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	c := x.c
	if b.num != nil && b.num.Sign() > 0 {
		var q *Term
		if x.entails(st, c.Le(c.Int(0), a)) {
			q = c.EDiv(a, b)
		} else {
			q = c.Ite(c.Le(c.Int(0), a), c.EDiv(a, b), c.Sub(c.Int(0), c.EDiv(c.Sub(c.Int(0), a), b)))
		}
		if op == token.QUO {
			return q
		}
		if x.entails(st, c.Le(c.Int(0), a)) {
			return c.EMod(a, b)
		}
		return c.Sub(a, c.Mul(b, q))
	}
	// general: truncated division
	q := x.fr(st, "quo", "Int")
	r := x.fr(st, "rem", "Int")
	z := c.Int(0)
	x.assume(st, c.Imp(c.Ne(b, z), c.And(c.Eq(a, c.Add(c.mk("*", "Int", b, q), r)),
		c.Imp(c.Le(z, a), c.And(c.Le(z, r), c.Imp(c.Lt(z, b), c.And(c.Lt(r, b), c.Le(z, q), c.Le(q, a))), c.Imp(c.Lt(b, z), c.Lt(r, c.Sub(z, b))))),
		c.Imp(c.Lt(a, z), c.And(c.Le(r, z), c.Imp(c.Lt(z, b), c.Lt(c.Sub(z, b), r)), c.Imp(c.Lt(b, z), c.Lt(b, r)))))))
	x.assume(st, c.Imp(c.And(c.Le(z, a), c.Lt(z, b)), c.And(c.Eq(q, c.EDiv(a, b)), c.Eq(r, c.EMod(a, b)))))
	if op == token.QUO {
		return x.wrap(st, q, rt)
	}
	return r
}

func (x *Exec) pow2(st *State, s *Term) *Term {
	c := x.c
	if s.num != nil {
		return c.Num(new(big.Int).Lsh(big.NewInt(1), uint(s.num.Int64())))
	}
	t := c.App("pow2", "Int", s)
	// ground table
	var cs []*Term
	for i := int64(0); i <= 64; i++ {
		cs = append(cs, c.Imp(c.Eq(s, c.Int(i)), c.Eq(t, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(i))))))
	}
	x.assume(st, c.And(cs...))
	x.assume(st, c.Lt(c.Int(0), t))
	return t
}

func (x *Exec) shift(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	c := x.c
	bt := basicInt(rt)
	lo, hi, _ := intRange(bt)
	w := new(big.Int).Sub(hi, lo).BitLen()
	if b.num != nil {
		n := b.num.Int64()
		if op == token.SHL {
			if n >= int64(w) {
				return c.Int(0)
			}
			t := c.Mul(c.Num(new(big.Int).Lsh(big.NewInt(1), uint(n))), a)
			if lo.Sign() == 0 && a.num == nil && !x.entails(st, c.Le(t, c.Num(hi))) {
				t = c.Mul(c.Num(new(big.Int).Lsh(big.NewInt(1), uint(n))), c.EMod(a, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(int64(w)-n)))))
				return t
			}
			return x.wrap(st, t, rt)
		}
		if n >= int64(w) {
			n = int64(w)
		}
		if n%8 == 0 && n > 0 && a.num == nil {
			// how the bytes of a number fit together: a>>(n-8) is 256*(a>>n) plus one byte
			hi, k := c.EDiv(a, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(n)))), c.EDiv(a, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(n-8))))
			x.assume(st, c.Eq(k, c.Add(c.Mul(c.Int(256), hi), c.EMod(k, c.Int(256)))))
		}
		return c.EDiv(a, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(n))))
	}
	p := x.pow2(st, b)
	big64 := c.Int(int64(w))
	if op == token.SHL {
		if a.num != nil && x.entails(st, c.And(c.Le(c.Int(0), b), c.Lt(b, c.Int(int64(w-1))))) {
			return x.wrap(st, c.Mul(a, p), rt)
		}
		r := x.fr(st, "shl", "Int")
		var cs []*Term
		for i := 0; i < w; i++ {
			cs = append(cs, c.Imp(c.Eq(b, c.Int(int64(i))), c.Eq(r, x.wrapT(c.Mul(c.Num(new(big.Int).Lsh(big.NewInt(1), uint(i))), a), rt))))
		}
		cs = append(cs, c.Imp(c.Le(big64, b), c.Eq(r, c.Int(0))))
		x.assume(st, c.And(cs...))
		x.assume(st, c.And(c.Le(c.Num(lo), r), c.Le(r, c.Num(hi))))
		return r
	}
	r := x.fr(st, "shr", "Int")
	var cs []*Term
	for i := 0; i < w; i++ {
		cs = append(cs, c.Imp(c.Eq(b, c.Int(int64(i))), c.Eq(r, c.EDiv(a, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(i)))))))
	}
	cs = append(cs, c.Imp(c.Le(big64, b), c.Eq(r, c.Ite(c.Le(c.Int(0), a), c.Int(0), c.Int(-1)))))
	x.assume(st, c.And(cs...))
	return r
}

func (x *Exec) wrapT(t *Term, typ types.Type) *Term {
	c := x.c
	lo, hi, _ := intRange(basicInt(typ))
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	if t.num != nil {
		r := new(big.Int).Sub(t.num, lo)
		r.Mod(r, m)
		return c.Num(r.Add(r, lo))
	}
	in := c.And(c.Le(c.Num(lo), t), c.Le(t, c.Num(hi)))
	return c.Ite(in, t, c.Add(c.EMod(c.Sub(t, c.Num(lo)), c.Num(m)), c.Num(lo)))
}

// andMask computes a & m for a literal non-negative mask m (two's complement a).
func (x *Exec) andMask(a *Term, m *big.Int) *Term {
	c := x.c
	r := c.Int(0)
	i := 0
	n := m.BitLen()
	for i < n {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		r = c.Add(r, c.Mul(c.Num(lo), c.EMod(c.EDiv(a, c.Num(lo)), c.Num(w))))
		i = j
	}
	return r
}

// tzeros is a lower bound of the number of trailing zero bits of t, from its shape.
func tzeros(t *Term) int {
	if t.num != nil {
		if t.num.Sign() == 0 {
			return 64
		}
		return int(new(big.Int).Abs(t.num).TrailingZeroBits())
	}
	switch t.op {
	case "*":
		n := 0
		for _, a := range t.args {
			n += tzeros(a)
		}
		return n
	case "+", "ite":
		as := t.args
		if t.op == "ite" {
			as = as[1:]
		}
		n := 64
		for _, a := range as {
			n = min(n, tzeros(a))
		}
		return n
	}
	return 0
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	c := x.c
	if a.num != nil && op != token.AND_NOT {
		a, b = b, a
	}
	lo, hi, _ := intRange(basicInt(rt))
	if op != token.AND_NOT && (a.num == nil || b.num == nil) {
		for i := 0; i < 2; i++ {
			p, q := a, b
			if i == 1 {
				p, q = b, a
			}
			// p is a multiple of 2^k and 0 <= q < 2^k: no common bits
			if k := tzeros(p); k > 0 && (lo.Sign() == 0 || x.entails(st, c.Le(c.Int(0), p))) &&
				x.entails(st, c.And(c.Le(c.Int(0), q), c.Lt(q, c.Num(new(big.Int).Lsh(big.NewInt(1), uint(k)))))) {
				if op == token.AND {
					return c.Int(0)
				}
				return c.Add(a, b)
			}
		}
	}
	if b.num != nil && b.num.Sign() >= 0 {
		and := x.andMask(a, b.num)
		switch op {
		case token.AND:
			// a & mask where mask covers the type: identity
			if b.num.Cmp(hi) == 0 && lo.Sign() == 0 {
				return a
			}
			return and
		case token.OR:
			return c.Sub(c.Add(a, b), and)
		case token.XOR:
			return c.Sub(c.Add(a, b), c.Mul(c.Int(2), and))
		case token.AND_NOT:
			return c.Sub(a, and)
		}
	}
	// single-bit operand pow2(s)
	var p *Term
	if b.op == "pow2" {
		p = b
	} else if a.op == "pow2" && op != token.AND_NOT {
		p, a = a, b
	}
	var and *Term
	if p != nil {
		s := p.args[0]
		and = x.fr(st, "bit", "Int")
		w := new(big.Int).Sub(hi, lo).BitLen()
		var cs []*Term
		for i := 0; i < w; i++ {
			pw := c.Num(new(big.Int).Lsh(big.NewInt(1), uint(i)))
			cs = append(cs, c.Imp(c.Eq(s, c.Int(int64(i))), c.Eq(and, c.Mul(pw, c.EMod(c.EDiv(a, pw), c.Int(2))))))
		}
		x.assume(st, c.And(cs...))
		x.assume(st, c.Or(c.Eq(and, c.Int(0)), c.Eq(and, p)))
		b = p
	} else {
		if a.id > b.id && op != token.AND_NOT {
			a, b = b, a
		}
		and = c.App("bitand", "Int", a, b)
		if lo.Sign() == 0 {
			x.assume(st, c.And(c.Le(c.Int(0), and), c.Le(and, a), c.Le(and, b)))
		}
	}
	switch op {
	case token.AND:
		return and
	case token.OR:
		return x.wrap(st, c.Sub(c.Add(a, b), and), rt)
	case token.XOR:
		return x.wrap(st, c.Sub(c.Add(a, b), c.Mul(c.Int(2), and)), rt)
	case token.AND_NOT:
		return c.Sub(a, and)
	}
	panic(unsup("bitop"))
}

func (x *Exec) concat(st *State, a, b *Term) *Term {
	c := x.c
	if va, ok := c.strVal[a]; ok {
		if vb, ok := c.strVal[b]; ok {
			return c.Str(va + vb)
		}
		if va == "" {
			return b
		}
	}
	if vb, ok := c.strVal[b]; ok && vb == "" {
		return a
	}
	t := c.App("scat", "Str", a, b)
	la, lb := x.slen(a), x.slen(b)
	x.assume(st, c.Eq(x.slen(t), c.Add(la, lb)))
	k := c.Bound("k", "Int")
	s := c.App("sat", "Int", t, k)
	x.assume(st, c.Forall([]*Term{k}, c.And(
		c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, la)), c.Eq(s, c.App("sat", "Int", a, k))),
		c.Imp(c.And(c.Le(la, k), c.Lt(k, c.Add(la, lb))), c.Eq(s, c.App("sat", "Int", b, c.Sub(k, la))))), []*Term{s}))
	return t
}

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	c := x.c
	if v, ok := c.strVal[s]; ok && lo.num != nil && hi.num != nil {
		return c.Str(v[lo.num.Int64():hi.num.Int64()])
	}
	if lo.num != nil && lo.num.Sign() == 0 && hi == x.slen(s) {
		return s
	}
	t := c.App("ssub", "Str", s, lo, hi)
	x.assume(st, c.Eq(x.slen(t), c.Sub(hi, lo)))
	x.assume(st, c.Imp(c.Eq(lo, hi), c.Eq(t, c.Str(""))))
	x.assume(st, c.Imp(c.And(c.Eq(lo, c.Int(0)), c.Eq(hi, x.slen(s))), c.Eq(t, s)))
	k := c.Bound("k", "Int")
	a := c.App("sat", "Int", t, k)
	x.assume(st, c.Forall([]*Term{k}, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, c.Sub(hi, lo))), c.Eq(a, c.App("sat", "Int", s, c.Add(lo, k)))), []*Term{a}))
	return t
}

func (x *Exec) strLess(st *State, a, b *Term) *Term {
	c := x.c
	if va, ok := c.strVal[a]; ok {
		if vb, ok := c.strVal[b]; ok {
			return c.Bool(va < vb)
		}
	}
	// a total order given by an injective rank
	ra, rb := c.App("srank", "Int", a), c.App("srank", "Int", b)
	x.assume(st, c.And(c.Imp(c.Eq(ra, rb), c.Eq(a, b)), c.Le(c.App("srank", "Int", c.Str("")), ra), c.Le(c.App("srank", "Int", c.Str("")), rb)))
	return c.Lt(ra, rb)
}

func (x *Exec) strFromBytes(st *State, sl *Term) *Term {
	c := x.c
	m, _ := x.memOf(st, types.Typ[types.Uint8])
	arr := c.Select(m, c.Sel(sl, 0))
	off, l := c.Sel(sl, 1), c.Sel(sl, 2)
	t := c.App("sfromb", "Str", arr, off, l)
	x.assume(st, c.Eq(x.slen(t), l))
	x.assume(st, c.Imp(c.Eq(l, c.Int(0)), c.Eq(t, c.Str(""))))
	k := c.Bound("k", "Int")
	a := c.App("sat", "Int", t, k)
	x.assume(st, c.Forall([]*Term{k}, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, l)), c.Eq(a, c.Select(arr, c.Add(off, k)))), []*Term{a}))
	return t
}

func (x *Exec) bytesFromStr(st *State, s *Term) *Term {
	c := x.c
	r := x.newRef(st)
	el := types.Typ[types.Uint8]
	m, key := x.memOf(st, el)
	arr := c.App("bytesof", arrSort("Int"), s)
	st.heap[key] = c.Store(m, r, arr)
	l := x.slen(s)
	k := c.Bound("k", "Int")
	x.assume(st, c.Forall([]*Term{k}, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, l)), c.Eq(c.Select(arr, k), c.App("sat", "Int", s, k))), []*Term{c.Select(arr, k)}, []*Term{c.App("sat", "Int", s, k)}))
	x.assume(st, x.tm.Fact(s, types.Typ[types.String], st.next, 1))
	return c.Mk("Slice", r, c.Int(0), l, l)
}

func (x *Exec) convert(st *State, u *ssa.Convert) {
	c := x.c
	from, to := u.X.Type(), u.Type()
	v := x.val(st, u.X)
	if bt := basicInt(to); bt != nil {
		if bf := basicInt(from); bf != nil {
			x.set(st, u, Val{T: x.wrapConv(st, x.term(st, v), bf, to)})
			return
		}
		if fb, ok := under(from).(*types.Basic); ok && fb.Info()&types.IsFloat != 0 {
			t := c.App("flt2int", "Int", x.term(st, v))
			x.fact(st, t, to)
			x.set(st, u, Val{T: t})
			return
		}
	}
	if tb, ok := under(to).(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if _, ok := under(from).(*types.Slice); ok {
				x.set(st, u, Val{T: x.strFromBytes(st, x.term(st, v))})
				return
			}
			if x.tm.Sort(from) == "Str" {
				x.set(st, u, v)
				return
			}
			if basicInt(from) != nil { // string(rune)
				t := c.App("runestr", "Str", x.term(st, v))
				x.fact(st, t, to)
				x.set(st, u, Val{T: t})
				return
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			a := x.term(st, v)
			if a.sort == "Int" {
				x.set(st, u, Val{T: c.App("int2flt", "Flt", a)})
			} else {
				x.set(st, u, v)
			}
			return
		}
		if tb.Kind() == types.UnsafePointer {
			x.set(st, u, v)
			return
		}
	}
	if s, ok := under(to).(*types.Slice); ok && x.tm.Sort(from) == "Str" {
		if basicInt(s.Elem()) != nil && basicInt(s.Elem()).Kind() == types.Uint8 {
			x.set(st, u, Val{T: x.bytesFromStr(st, x.term(st, v))})
			return
		}
		if basicInt(s.Elem()) != nil {
			r := x.newRef(st)
			l := x.fr(st, "runes", "Int")
			x.assume(st, c.And(c.Le(c.Int(0), l), c.Le(l, x.slen(x.term(st, v)))))
			x.set(st, u, Val{T: c.Mk("Slice", r, c.Int(0), l, l)})
			return
		}
	}
	if x.tm.Sort(from) == x.tm.Sort(to) {
		x.set(st, u, v)
		return
	}
	panic(unsup("convert %s -> %s", from, to))
}

func (x *Exec) wrapConv(st *State, t *Term, from *types.Basic, to types.Type) *Term {
	fl, fh, ok1 := intRange(from)
	tl, th, ok2 := intRange(basicInt(to))
	if ok1 && ok2 && fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
		return t
	}
	if t.num == nil && tl.Sign() == 0 {
		// to unsigned narrower: exact modulus
		in := x.c.And(x.c.Le(x.c.Num(tl), t), x.c.Le(t, x.c.Num(th)))
		if len(t.fv) == 0 && x.entails(st, in) {
			return t
		}
		return x.c.EMod(t, x.c.Num(new(big.Int).Add(th, big.NewInt(1))))
	}
	return x.wrap(st, t, to)
}

func (x *Exec) slice(st *State, u *ssa.Slice) {
	c := x.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.tv(st, v)
	}
	z := c.Int(0)
	switch xt := under(u.X.Type()).(type) {
	case *types.Basic:
		s := x.tv(st, u.X)
		lo, hi := get(u.Low, z), get(u.High, x.slen(s))
		x.safety(st, "slice-bounds", u, c.And(c.Le(z, lo), c.Le(lo, hi), c.Le(hi, x.slen(s))))
		x.set(st, u, Val{T: x.substr(st, s, lo, hi)})
	case *types.Slice:
		s := x.tv(st, u.X)
		lo, hi := get(u.Low, z), get(u.High, c.Sel(s, 2))
		mx := get(u.Max, c.Sel(s, 3))
		x.safety(st, "slice-bounds", u, c.And(c.Le(z, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Sel(s, 3))))
		x.set(st, u, Val{T: c.Mk("Slice", c.Sel(s, 0), c.Add(c.Sel(s, 1), lo), c.Sub(hi, lo), c.Sub(mx, lo))})
	case *types.Pointer:
		ar := under(xt.Elem()).(*types.Array)
		a := x.addr(st, x.val(st, u.X), u.X.Type())
		x.nonNil(st, a, u, "")
		n := c.Int(ar.Len())
		lo, hi := get(u.Low, z), get(u.High, n)
		mx := get(u.Max, n)
		x.safety(st, "slice-bounds", u, c.And(c.Le(z, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		ref := a.ref
		if a.kind != aArr || len(a.path) > 0 {
			ref = nil
			for _, al := range st.aliases {
				if sameAddr(al.a, a) {
					ref = al.ref
				}
			}
			if ref == nil {
				cur := x.load(st, a).T
				ref = x.newRef(st)
				m, k := x.memOf(st, ar.Elem())
				st.heap[k] = c.Store(m, ref, cur)
				st.aliases = append(st.aliases, alias{a, k, ref, ar.Elem()})
			}
		}
		x.set(st, u, Val{T: c.Mk("Slice", ref, lo, c.Sub(hi, lo), c.Sub(mx, lo))})
	default:
		panic(unsup("slice of %s", u.X.Type()))
	}
}

func sameAddr(a, b *Addr) bool {
	if !sameRoot(a, b) || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

// ---- maps

func (x *Exec) mapOf(st *State, mt *types.Map) (*Term, string, string) {
	ks, vs := x.tm.Sort(mt.Key()), x.tm.Sort(mt.Elem())
	s := "M_" + clean(ks) + "_" + clean(vs)
	if _, ok := x.c.dtOf[s]; !ok {
		x.c.Datatype(s, "mk_"+s, []dtSel{{s + ".dom", arrSortK(ks, "Bool")}, {s + ".val", arrSortK(ks, vs)}, {s + ".card", "Int"}})
	}
	k := "map:" + typeKey(mt)
	x.keySort[k] = arrSort(s)
	return x.heapGet(st, k, arrSort(s)), k, s
}
func (x *Exec) emptyMap(ms string) *Term {
	c := x.c
	sel := c.dtSel[c.dtOf[ms]]
	return c.Mk(ms, c.ConstArr(sel[0].sort, c.False()), c.ConstArr(sel[1].sort, x.tm.ZeroSort(elemSort(sel[1].sort))), c.Int(0))
}
func (x *Exec) mapVal(st *State, mt *types.Map, m *Term) *Term {
	h, _, ms := x.mapOf(st, mt)
	v := x.c.Select(h, m)
	// nil map behaves as the empty map
	if m.num != nil && m.num.Sign() == 0 {
		return x.emptyMap(ms)
	}
	if len(m.fv) == 0 {
		c := x.c
		x.assume(st, c.Le(c.Int(0), c.Sel(v, 2)))
		x.assume(st, c.Imp(c.Eq(m, c.Int(0)), c.Eq(v, x.emptyMap(ms))))
		// card = 0 iff the domain is empty
		d := c.Sel(v, 0)
		x.assume(st, c.Imp(c.Eq(c.Sel(v, 2), c.Int(0)), c.Eq(d, c.ConstArr(d.sort, c.False()))))
		// a map that is not empty has a key, one of two entries has two
		ks := x.tm.Sort(mt.Key())
		w1, w2 := c.App("witA_"+clean(ks), ks, d), c.App("witB_"+clean(ks), ks, d)
		x.assume(st, c.Imp(c.Lt(c.Int(0), c.Sel(v, 2)), c.Select(d, w1)))
		x.assume(st, c.Imp(c.Lt(c.Int(1), c.Sel(v, 2)), c.And(c.Select(d, w2), c.Not(c.Eq(w1, w2)))))
	}
	return v
}
func (x *Exec) mapUpdate(st *State, mt *types.Map, m, k, v *Term) {
	c := x.c
	nv := x.mapStore(x.mapVal(st, mt, m), k, v)
	h, key, _ := x.mapOf(st, mt)
	st.heap[key] = c.Store(h, m, nv)
}
func (x *Exec) mapStore(mv, k, v *Term) *Term {
	c := x.c
	has := c.Select(c.Sel(mv, 0), k)
	return c.Mk(mv.sort, c.Store(c.Sel(mv, 0), k, c.True()), c.Store(c.Sel(mv, 1), k, v), c.Ite(has, c.Sel(mv, 2), c.Add(c.Sel(mv, 2), c.Int(1))))
}
func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	c := x.c
	mv := x.mapVal(st, mt, m)
	has := c.Select(c.Sel(mv, 0), k)
	x.assume(st, c.Imp(has, c.Lt(c.Int(0), c.Sel(mv, 2))))
	nv := c.Mk(mv.sort, c.Store(c.Sel(mv, 0), k, c.False()), c.Sel(mv, 1), c.Ite(has, c.Sub(c.Sel(mv, 2), c.Int(1)), c.Sel(mv, 2)))
	h, key, _ := x.mapOf(st, mt)
	st.heap[key] = c.Store(h, m, nv)
}

func (x *Exec) lookup(st *State, u *ssa.Lookup) {
	c := x.c
	if mt, ok := under(u.X.Type()).(*types.Map); ok {
		m, k := x.tv(st, u.X), x.tv(st, u.Index)
		mv := x.mapVal(st, mt, m)
		has := c.Select(c.Sel(mv, 0), k)
		x.assume(st, c.Imp(has, c.Lt(c.Int(0), c.Sel(mv, 2))))
		val := c.Select(c.Sel(mv, 1), k)
		x.assume(st, c.Imp(has, x.tm.Fact(val, mt.Elem(), st.next, 2)))
		v := c.Ite(has, val, x.tm.Zero(mt.Elem()))
		if u.CommaOk {
			x.set(st, u, Val{Tup: []Val{x.retype(st, v), {T: has}}})
		} else {
			x.set(st, u, x.retype(st, v))
		}
		return
	}
	s, idx := x.tv(st, u.X), x.tv(st, u.Index)
	x.safety(st, "index-in-range", u, c.And(c.Le(c.Int(0), idx), c.Lt(idx, x.slen(s))))
	x.set(st, u, Val{T: x.sat(st, s, idx)})
}

func (x *Exec) rangeStart(st *State, u *ssa.Range) {
	c := x.c
	if mt, ok := under(u.X.Type()).(*types.Map); ok {
		m := x.tv(st, u.X)
		mv := x.mapVal(st, mt, m)
		gk := fmt.Sprintf("vis:%s:%s", st.top().path, u.Name())
		st.ghost[gk] = c.ConstArr(c.Sel(mv, 0).sort, c.False())
		x.set(st, u, Val{It: &IterV{isMap: true, m: m, mt: mt, gk: gk, dom0: c.Sel(mv, 0)}})
		return
	}
	s := x.tv(st, u.X)
	gk := fmt.Sprintf("pos:%s:%s", st.top().path, u.Name())
	st.ghost[gk] = c.Int(0)
	x.set(st, u, Val{It: &IterV{str: s, gk: gk}})
}

func (x *Exec) next(st *State, u *ssa.Next, k func(*State)) {
	c := x.c
	it := x.val(st, u.Iter).It
	if it == nil {
		panic(unsup("next"))
	}
	if !it.isMap {
		p := st.ghost[it.gk]
		l := x.slen(it.str)
		x.assume(st, c.And(c.Le(c.Int(0), p)))
		done := c.Le(l, p)
		if x.feasible(st, done) {
			s2 := st.clone()
			x.assume(s2, done)
			x.set(s2, u, Val{Tup: []Val{{T: c.False()}, {T: c.Int(0)}, {T: c.Int(0)}}})
			k(s2)
		}
		if x.feasible(st, c.Not(done)) {
			x.assume(st, c.Not(done))
			ch := x.sat(st, it.str, p)
			r, w := x.fr(st, "rune", "Int"), x.fr(st, "width", "Int")
			x.assume(st, c.Ite(c.Lt(ch, c.Int(128)), c.And(c.Eq(r, ch), c.Eq(w, c.Int(1))), c.And(c.Le(c.Int(128), r), c.Le(r, c.Int(0x10FFFF)), c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(p, w), l))))
			st.ghost[it.gk] = c.Add(p, w)
			x.set(st, u, Val{Tup: []Val{{T: c.True()}, {T: p}, {T: r}}})
			k(st)
		}
		return
	}
	vis := st.ghost[it.gk]
	mv := x.mapVal(st, it.mt, it.m)
	dom := c.Sel(mv, 0)
	tt := u.Type().(*types.Tuple)
	ks := x.tm.Sort(it.mt.Key())
	{
		s2 := st.clone()
		q := c.Bound("k", ks)
		x.assume(s2, c.Forall([]*Term{q}, c.Imp(c.And(c.Select(dom, q), c.Select(it.dom0, q)), c.Select(vis, q)), []*Term{c.Select(dom, q)}))
		x.set(s2, u, Val{Tup: []Val{{T: c.False()}, {T: x.tm.Zero(it.mt.Key())}, {T: x.tm.Zero(it.mt.Elem())}}})
		k(s2)
	}
	key := x.fr(st, "mk", ks)
	x.fact(st, key, it.mt.Key())
	x.assume(st, c.And(c.Select(dom, key), c.Not(c.Select(vis, key)), c.Lt(c.Int(0), c.Sel(mv, 2))))
	st.ghost[it.gk] = c.Store(vis, key, c.True())
	v := c.Select(c.Sel(mv, 1), key)
	x.fact(st, v, it.mt.Elem())
	_ = tt
	x.set(st, u, Val{Tup: []Val{{T: c.True()}, {T: key}, x.retype(st, v)}})
	if x.feasible(st, c.True()) {
		k(st)
	}
}

// ---- interfaces

func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	c := x.c
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			return x.term(st, v)
		}
	}
	tag := c.Int(int64(x.tm.tag(t)))
	tm := x.term(st, v)
	if pointerLike(t) {
		return c.Mk("Iface", tag, tm)
	}
	b := c.App("box_"+clean(tm.sort), "Int", tm)
	if len(tm.fv) == 0 {
		x.assume(st, c.Eq(c.App("unbox_"+clean(tm.sort), tm.sort, b), tm))
	} else if bn := b.op; c.defs[bn] == nil && (strings.HasPrefix(tm.sort, "TP_") || tm.sort == "Str" || tm.sort == "Flt") {
		// under a quantifier: boxing is injective
		v := c.Bound("bx", tm.sort)
		bv := c.App(bn, "Int", v)
		c.defs[bn] = &FunDef{axioms: []*Term{c.Quant("forall", []*Term{v}, c.Eq(c.App("unbox_"+clean(tm.sort), tm.sort, bv), v), []*Term{bv})}}
	}
	return c.Mk("Iface", tag, b)
}

func (x *Exec) unbox(st *State, iv *Term, t types.Type) Val {
	c := x.c
	if pointerLike(t) {
		v := c.Sel(iv, 1)
		x.fact(st, v, t)
		return x.retype(st, v)
	}
	s := x.tm.Sort(t)
	p := c.Sel(iv, 1)
	if p.op == "box_"+clean(s) {
		return Val{T: p.args[0]}
	}
	v := c.App("unbox_"+clean(s), s, p)
	x.fact(st, v, t)
	return Val{T: v}
}

func (x *Exec) typeAssert(st *State, u *ssa.TypeAssert, k func(*State)) {
	c := x.c
	iv := x.tv(st, u.X)
	at := u.AssertedType
	var ok *Term
	var val func(*State) Val
	if _, isI := at.Underlying().(*types.Interface); isI {
		tag := c.Sel(iv, 0)
		if tag.num != nil {
			n := int(tag.num.Int64())
			if n == 0 {
				ok = c.False()
			} else if ct := x.tm.tagTyp[n]; ct != nil {
				ok = c.Bool(types.Implements(ct, at.Underlying().(*types.Interface)))
			}
		}
		if ok == nil {
			ok = c.And(c.Ne(tag, c.Int(0)), c.App("implements$"+clean(typeKey(at)), "Bool", tag))
		}
		val = func(st *State) Val { return Val{T: iv} }
	} else {
		ok = c.Eq(c.Sel(iv, 0), c.Int(int64(x.tm.tag(at))))
		val = func(st *State) Val { return x.unbox(st, iv, at) }
	}
	if !u.CommaOk {
		x.safety(st, "type-assertion", u, ok)
		x.set(st, u, val(st))
		k(st)
		return
	}
	if !ok.isFalse() && x.feasible(st, ok) {
		s2 := st.clone()
		x.assume(s2, ok)
		x.set(s2, u, Val{Tup: []Val{val(s2), {T: c.True()}}})
		k(s2)
	}
	if !ok.isTrue() && x.feasible(st, c.Not(ok)) {
		x.assume(st, c.Not(ok))
		x.set(st, u, Val{Tup: []Val{{T: x.tm.Zero(at)}, {T: c.False()}}})
		k(st)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
