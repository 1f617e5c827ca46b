package main

import (
	"slices"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func funcKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return f.String()
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		return pkg + "." + recvName(r.Type()) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

// variant: a contract NAME#v belongs to a second set of contracts, for sequential histories: locks are of no effect,
// and calls use the contracts of the same set where there are such.
func variant(con *Contract) string {
	if con == nil {
		return ""
	}
	_, v, _ := strings.Cut(con.Key, "#")
	return v
}

func (x *Exec) conFor(key string) *Contract {
	if v := variant(x.con); v != "" {
		if c := x.w.specs.C[key+"#"+v]; c != nil {
			return c
		}
	}
	return x.w.specs.C[key]
}

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) call(st *State, in *ssa.Call, cc *ssa.CallCommon, fn Val, args []Val, k cont) {
	var instr ssa.Instruction = x.curInstr
	if in != nil {
		instr = in
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, instr, b, cc, args, k)
		return
	}
	if cc.IsInvoke() {
		x.invoke(st, instr, cc, fn, args, k)
		return
	}
	cl := fn.C
	if cl == nil && fn.T != nil {
		cl = st.closures[fn.T]
	}
	if cl == nil {
		// unknown function value: a pure function of its arguments
		x.unknownFunc(st, instr, fn, args, cc.Signature(), k)
		return
	}
	x.callFn(st, instr, cl, args, cc.Signature(), k)
}

func (x *Exec) unknownFunc(st *State, in ssa.Instruction, fn Val, args []Val, sig *types.Signature, k cont) {
	f := x.term(st, fn)
	if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
		// a function type can have a contract of its own
		if n, ok := types.Unalias(ci.Common().Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			if con := x.conFor(n.Obj().Pkg().Path() + "." + n.Obj().Name()); con != nil && con.Extern {
				x.safety(st, "nil-func-call", in, x.c.Ne(f, x.c.Int(0)))
				x.contractCall(st, in, con, sig, nil, append([]Val{fn}, args...), sig, k)
				return
			}
		}
	}
	x.safety(st, "nil-func-call", in, x.c.Ne(f, x.c.Int(0)))
	x.note("function values received as parameters or fields are deterministic and change no tracked state")
	rs := resultTypes(sig)
	var out []Val
	for i, r := range rs {
		t := x.applyTerm(f, i, args, st, x.tm.Sort(r))
		x.fact(st, t, r)
		out = append(out, x.retype(st, t))
	}
	k(st, out)
}

func (x *Exec) applyTerm(f *Term, i int, args []Val, st *State, rs string) *Term {
	as := []*Term{f}
	n := fmt.Sprintf("apply%d$%s", i, clean(rs))
	for _, a := range args {
		t := x.term(st, a)
		as = append(as, t)
		n += "$" + clean(t.sort)
	}
	return x.c.App(n, rs, as...)
}

func (x *Exec) callFn(st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	f := cl.fn
	key := funcKey(f)
	if h, ok := intrinsics[key]; ok {
		x.ctrUsed["intrinsic "+key] = true
		h(x, st, in, cl, args, sig, k)
		return
	}
	if c := x.conFor(key); c != nil && !c.Inline && !x.demoted[c.Key] && (c.Extern || x.w.sigOK(c, f)) {
		rec := key == funcKey(x.root) && len(st.frames) == 0
		if !rec {
			x.contractCall(st, in, c, f.Signature, f, args, sig, k)
			return
		}
	}
	if f.Synthetic != "" && f.Origin() != nil && len(f.TypeArgs()) > 0 && isWrapper(f) {
		x.bindTypeParams(f)
		f = f.Origin()
	}
	if len(f.Blocks) == 0 {
		x.externDefault(st, in, key, args, sig, k)
		return
	}
	if !x.w.inRepo(f) && f.Synthetic == "" {
		x.externDefault(st, in, key, args, sig, k)
		return
	}
	depth := 0
	for _, fr := range st.frames {
		if fr.fn == f {
			depth++
		}
	}
	if depth >= 1 {
		panic(unsup("recursive call of %s without contract", key))
	}
	if len(st.frames) > 12 {
		panic(unsup("inlining too deep at %s", key))
	}
	if f.Parent() == nil {
		x.inlined[key] = true
	}
	x.enter(st, f, cl.bind, args, k)
}

func isWrapper(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "instantiation wrapper")
}

func (x *Exec) bindTypeParams(f *ssa.Function) {
	o := f.Origin()
	tp := o.TypeParams()
	for i := 0; i < tp.Len() && i < len(f.TypeArgs()); i++ {
		a := types.Unalias(f.TypeArgs()[i])
		at, ok := a.(*types.TypeParam)
		if !ok || at.Obj().Name() != tp.At(i).Obj().Name() {
			panic(unsup("generic instance %s with type argument %s", f, a))
		}
	}
}

func (x *Exec) enter(st *State, f *ssa.Function, bind []Val, args []Val, k cont) {
	path := ""
	if len(st.frames) > 0 {
		path = st.top().path
	}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, names: map[string]TV{}, unr: map[*Loop]int{}, path: path + "/" + f.String()}
	for i, p := range f.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = TV{v: args[i], t: p.Type()}
	}
	for i, fv := range f.FreeVars {
		fr.env[fv] = bind[i]
		fr.names[fv.Name()] = TV{v: bind[i], t: fv.Type(), isAddr: true}
	}
	st.frames = append(st.frames, fr)
	x.block(st, f.Blocks[0], nil, k)
}

func (x *Exec) havocResults(st *State, sig *types.Signature, hint string) []Val {
	var out []Val
	for _, r := range resultTypes(sig) {
		t := x.fr(st, hint, x.tm.Sort(r))
		x.fact(st, t, r)
		out = append(out, Val{T: t})
	}
	return out
}

// externDefault: a function outside the repository without a contract: results arbitrary, memory reachable from
// its pointer and slice arguments arbitrary.
func (x *Exec) externDefault(st *State, in ssa.Instruction, key string, args []Val, sig *types.Signature, k cont) {
	x.assumed["no contract for "+key+": result arbitrary, memory reachable from its arguments arbitrary"] = true
	for i, a := range args {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		}
		if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
			if i == 0 {
				t = sig.Recv().Type()
			} else {
				t = sig.Params().At(i - 1).Type()
			}
		}
		if t != nil {
			x.havocArg(st, a, t)
		}
	}
	x.bumpNext(st)
	k(st, x.havocResults(st, sig, "ext"))
}

func (x *Exec) havocArg(st *State, a Val, t types.Type) {
	switch u := under(t).(type) {
	case *types.Pointer:
		ad := x.addr(st, a, t)
		el := x.pathType(ad)
		v := x.fr(st, "hv", x.tm.Sort(el))
		x.fact(st, v, el)
		x.store(st, ad, Val{T: v})
	case *types.Slice:
		s := x.term(st, a)
		m, k := x.memOf(st, u.Elem())
		st.heap[k] = x.c.Store(m, x.c.Sel(s, 0), x.fr(st, "hv", arrSort(x.tm.Sort(u.Elem()))))
	}
}

func (x *Exec) bumpNext(st *State) {
	n := x.fr(st, "next", "Int")
	x.assume(st, x.c.Le(st.next, n))
	st.next = n
}

func (x *Exec) invoke(st *State, in ssa.Instruction, cc *ssa.CallCommon, recv Val, args []Val, k cont) {
	iv := x.term(st, recv)
	c := x.c
	x.safety(st, "nil-interface-call", in, c.Ne(c.Sel(iv, 0), c.Int(0)))
	tag := c.Sel(iv, 0)
	if tag.num == nil {
		if n := knownEq(st, tag); n != nil {
			tag = n
		}
	}
	if tag.num != nil {
		ct := x.tm.tagTyp[int(tag.num.Int64())]
		if ct != nil {
			ms := x.w.prog.MethodSets.MethodSet(ct)
			if sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				f := x.w.prog.MethodValue(sel)
				if f == nil {
					// the method of a generic type, seen from generic code
					if fo, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
						if f = x.w.prog.FuncValue(fo.Origin()); f != nil {
							x.invokeOrigin(st, in, f, ct, sel, append([]Val{x.unbox(st, iv, ct)}, args...), k)
							return
						}
					}
				}
				if f != nil {
					x.callFn(st, in, &Closure{fn: f}, append([]Val{x.unbox(st, iv, ct)}, args...), f.Signature, k)
					return
				}
			}
		}
	}
	key := ifaceKey(cc)
	all := append([]Val{recv}, args...)
	if h, ok := intrinsics[key]; ok {
		x.ctrUsed["intrinsic "+key] = true
		h(x, st, in, nil, all, cc.Signature(), k)
		return
	}
	if con := x.conFor(key); con != nil {
		x.contractCall(st, in, con, cc.Signature(), nil, all, cc.Signature(), k)
		return
	}
	if strings.Contains(key, "golibs/logging.Logger.") {
		x.assumed["logging calls have no effect on tracked state"] = true
		k(st, x.havocResults(st, cc.Signature(), "log"))
		return
	}
	x.assumed["interface method "+key+" without contract: result arbitrary, memory reachable from its arguments arbitrary"] = true
	for i, a := range args {
		x.havocArg(st, a, cc.Signature().Params().At(i).Type())
	}
	x.bumpNext(st)
	k(st, x.havocResults(st, cc.Signature(), "inv"))
}

func ifaceKey(cc *ssa.CallCommon) string {
	t := types.Unalias(cc.Value.Type())
	name := "?"
	pkg := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	}
	return pkg + "." + name + "." + cc.Method.Name()
}

// invokeOrigin calls a method of a generic type for the type arguments of ct.
func (x *Exec) invokeOrigin(st *State, in ssa.Instruction, f *ssa.Function, ct types.Type, sel *types.Selection, args []Val, k cont) {
	targs := map[string]types.Type{}
	same := true
	if n, ok := types.Unalias(deref(ct)).(*types.Named); ok {
		tp := f.Signature.RecvTypeParams()
		for i := 0; i < tp.Len() && i < n.TypeArgs().Len(); i++ {
			a := types.Unalias(n.TypeArgs().At(i))
			targs[tp.At(i).Obj().Name()] = a
			if ap, ok := a.(*types.TypeParam); !ok || ap.Obj().Name() != tp.At(i).Obj().Name() {
				same = false
			}
		}
	}
	sig, _ := sel.Type().(*types.Signature)
	key := funcKey(f)
	if c := x.conFor(key); c != nil && !c.Inline && !x.demoted[c.Key] && x.w.sigOK(c, f) && sig != nil {
		x.targs = targs
		x.contractCall(st, in, c, sig, f, args, sig, k)
		return
	}
	if !same {
		panic(unsup("generic instance of %s without a contract", key))
	}
	x.callFn(st, in, &Closure{fn: f}, args, f.Signature, k)
}

// knownEq returns the constant the path says t equals, if it says so directly.
func knownEq(st *State, t *Term) *Term {
	var in func(a *Term) *Term
	in = func(a *Term) *Term {
		switch a.op {
		case "and":
			for _, b := range a.args {
				if n := in(b); n != nil {
					return n
				}
			}
		case "=":
			if a.args[0] == t && a.args[1].num != nil {
				return a.args[1]
			}
			if a.args[1] == t && a.args[0].num != nil {
				return a.args[0]
			}
		}
		return nil
	}
	for l := st.as; l != nil; l = l.prev {
		if n := in(l.t); n != nil {
			return n
		}
	}
	return nil
}

// contractCall replaces a call by the callee's contract.
func (x *Exec) contractCall(st *State, in ssa.Instruction, con *Contract, csig *types.Signature, f *ssa.Function, args []Val, sig *types.Signature, k cont) {
	c := x.c
	x.ctrUsed[con.Key] = true
	env := &Env{x: x, st: st, old: nil, vars: map[string]TV{}, fn: f, con: con, targs: x.targs}
	x.targs = nil
	if f == nil {
		env.fn = nil
	}
	env.pkg = x.w.pkgOf(con.Pkg)
	var ptypes []types.Type
	if len(args) == csig.Params().Len()+1 {
		if csig.Recv() != nil {
			ptypes = append(ptypes, csig.Recv().Type())
		} else {
			ptypes = append(ptypes, nil)
		}
	}
	for i := 0; i < csig.Params().Len(); i++ {
		ptypes = append(ptypes, csig.Params().At(i).Type())
	}
	for i, p := range con.Params {
		if i >= len(args) {
			panic(unsup("contract %s: parameter count", con.Key))
		}
		env.vars[p] = TV{v: args[i], t: ptypes[i]}
	}
	name := shortKey(con.Key)
	env.pol = -1
	if csig.Recv() != nil && len(args) > 0 && con.Opts["nilrecv"] == "" {
		if _, ok := under(csig.Recv().Type()).(*types.Pointer); ok {
			if a := args[0].A; a == nil || a.kind == aHeap && len(a.path) == 0 {
				x.safety(st, "nil-receiver "+name, in, c.Lt(c.Int(0), x.term(st, args[0])))
			}
		}
	}
	for i, r := range con.Requires {
		x.oblige(st, "precondition", fmt.Sprintf("%s/call:%s/requires#%d", shortKey(funcKey(x.root)), name, i+1), in.Pos(), x.evalBool(r.E, env))
	}
	if len(con.Panics) > 0 {
		var ps []*Term
		for _, p := range con.Panics {
			ps = append(ps, x.evalBool(p.E, env))
		}
		x.safety(st, "callee-may-panic "+name, in, c.Not(c.Or(ps...)))
	}
	for _, cb := range con.Callbacks {
		x.callback(st, in, con, cb, env, name)
	}
	old := st.clone()
	env.old = old
	for _, l := range con.Lets {
		e2 := *env
		e2.st = old
		e2.cur = st
		env.vars[l.Name] = x.rv(x.eval(l.E, &e2), &e2)
	}
	if con.ModAll {
		st.epoch = fmt.Sprintf("%d_", st.fresh)
		st.fresh++
		st.heap = map[string]*Term{}
	}
	if !con.Pure {
		x.bumpNext(st)
	}
	for _, m := range con.Modifies {
		e2 := *env
		e2.st = old
		e2.cur = st
		x.havocTarget(st, m.E, &e2)
	}
	var out []Val
	rts := resultTypes(csig)
	for i, r := range rts {
		var t *Term
		hint := "r_" + lastName(con.Key)
		if i < len(con.Results) {
			// a pure function with an explicit definition keeps its term
			t = x.pureResult(st, con, env, con.Results[i], r)
		}
		if t == nil {
			t = x.fr(st, hint, x.tm.Sort(r))
		}
		x.fact(st, t, r)
		v := Val{T: t}
		out = append(out, v)
		if i < len(con.Results) {
			env.vars[con.Results[i]] = TV{v: v, t: r}
		}
	}
	env.st = st
	env.pol = 1
	for _, e := range con.Ensures {
		// what a postcondition says about the moment a lock was held is of no use to the caller
		inner := false
		env.inner = &inner
		base := st.as
		f := x.evalBool(e.E, env)
		if inner {
			st.as = base
			continue
		}
		x.assume(st, f)
	}
	env.inner = nil
	if con.Opts["noreturn"] != "" {
		return
	}
	if len(con.Ensures) > 0 && con.Opts["feas"] != "" && !x.feasible(st, c.True()) {
		x.pathDead++
		return
	}
	// fork on boolean-like results is left to the branches of the caller
	k(st, out)
}

// callback: the function given for a parameter does what the contract expects of it, for all arguments. The variables
// it captures have the values they have at the call.
func (x *Exec) callback(st *State, in ssa.Instruction, con *Contract, cb *Callback, env *Env, name string) {
	pv, ok := env.vars[cb.Param]
	if !ok {
		panic(unsup("contract %s: callback of an unknown parameter %s", con.Key, cb.Param))
	}
	cl := pv.v.C
	if cl == nil && pv.v.T != nil {
		cl = st.closures[pv.v.T]
	}
	on := fmt.Sprintf("%s/call:%s/%s", shortKey(funcKey(x.root)), name, clauseName(cb.C, "callback", 0))
	if cl == nil || len(cl.fn.Params) != len(cb.Params) {
		x.oblige(st, "callback", on, in.Pos(), x.c.False())
		return
	}
	x.note("a function given as an argument finds the variables it captures as they were when it was given")
	s2 := st.clone()
	var args []Val
	for _, p := range cl.fn.Params {
		t := x.fr(s2, "cb_"+p.Name(), x.tm.Sort(p.Type()))
		x.fact(s2, t, p.Type())
		args = append(args, x.retype(s2, t))
	}
	was := s2.clone()
	x.callFn(s2, in, cl, args, cl.fn.Signature, func(s3 *State, outs []Val) {
		e2 := *env
		e2.st, e2.old, e2.pol = s3, was, -1
		e2.vars = cp(env.vars)
		for i, p := range cb.Params {
			e2.vars[p] = TV{v: args[i], t: cl.fn.Params[i].Type()}
		}
		rts := resultTypes(cl.fn.Signature)
		for i, r := range cb.Results {
			e2.vars[r] = TV{v: outs[i], t: rts[i]}
		}
		x.oblige(s3, "callback", on, in.Pos(), x.evalBool(cb.C.E, &e2))
	})
}

// pureResult: ensures clauses of the form r == e let the result be the term itself.
func (x *Exec) pureResult(st *State, con *Contract, env *Env, res string, t types.Type) *Term {
	for _, e := range con.Ensures {
		if e.E.Op == "bin" && (e.E.Name == "==" || e.E.Name == "<==>") && e.E.Args[0].Op == "id" && e.E.Args[0].Name == res && !mentions(e.E.Args[1], con.Results) && (con.Pure || e.E.Args[1].Op == "id" && slices.Contains(con.Params, e.E.Args[1].Name)) {
			e2 := *env
			e2.pol = 1
			v := x.eval(e.E.Args[1], &e2)
			tm := x.term(st, v.v)
			if tm.sort == x.tm.Sort(t) && !tm.quan {
				return tm
			}
		}
	}
	return nil
}

func mentions(e *Expr, ns []string) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" {
		for _, n := range ns {
			if e.Name == n {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if mentions(a, ns) {
			return true
		}
	}
	return false
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}
func lastName(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// havocTarget makes the location(s) named by a modifies clause arbitrary in st (names evaluated in env.st).
func (x *Exec) havocTarget(st *State, e *Expr, env *Env) {
	c := x.c
	if e.Op == "call" && e.Args[0].Op == "id" {
		switch e.Args[0].Name {
		case "elems", "array":
			s := x.eval(e.Args[1], env)
			sl, ok := under(s.t).(*types.Slice)
			if !ok {
				panic(unsup("elems of %s", s.t))
			}
			t := x.term(st, s.v)
			m, k := x.memOf(st, sl.Elem())
			old := c.Select(m, c.Sel(t, 0))
			n := x.fr(st, "mod", old.sort)
			if e.Args[0].Name == "elems" {
				b := c.Bound("k", "Int")
				o, l := c.Sel(t, 1), c.Sel(t, 2)
				x.assume(st, c.Forall([]*Term{b}, c.Imp(c.Or(c.Lt(b, o), c.Le(c.Add(o, l), b)), c.Eq(c.Select(n, b), c.Select(old, b))), []*Term{c.Select(n, b)}))
			}
			st.heap[k] = c.Store(m, c.Sel(t, 0), n)
			return
		case "mapof":
			s := x.eval(e.Args[1], env)
			mt := under(s.t).(*types.Map)
			h, k, ms := x.mapOf(st, mt)
			st.heap[k] = c.Store(h, x.term(st, s.v), x.fr(st, "modmap", ms))
			return
		case "heap": // heap(expr): every object of the pointer's element type
			s := x.eval(e.Args[1], env)
			t := deref(s.t)
			_, k := x.heapOf(st, t)
			st.heap[k] = x.fr(st, "modheap", x.keySort[k])
			return
		case "mem":
			s := x.eval(e.Args[1], env)
			_, k := x.memOf(st, under(s.t).(*types.Slice).Elem())
			st.heap[k] = x.fr(st, "modmem", x.keySort[k])
			return
		case "ghost":
			k := "ghost:" + e.Args[1].Name
			s := x.ghostSort(e.Args[1].Name)
			x.keySort[k] = s
			st.heap[k] = x.fr(st, "ghost_"+e.Args[1].Name, s)
			return
		}
	}
	if e.Op == "un" && e.Name == "*" {
		s := x.eval(e.Args[0], env)
		a := x.addr(st, s.v, s.t)
		el := x.pathType(a)
		v := x.fr(st, "mod", x.tm.Sort(el))
		x.fact(st, v, el)
		x.store(st, a, Val{T: v})
		return
	}
	if e.Op == "id" {
		if g, k, t := x.w.global(env, e.Name); g != nil {
			x.keySort[k] = x.tm.Sort(t)
			v := x.fr(st, "mod", x.tm.Sort(t))
			x.fact(st, v, t)
			st.heap[k] = v
			return
		}
	}
	if e.Op == "sel" {
		b := x.eval(e.Args[0], env)
		a := x.addr(st, b.v, b.t)
		path, ft := fieldPath(deref(b.t), e.Name)
		ad := a
		for _, i := range path {
			ad = ad.sub(pathEl{field: i})
		}
		v := x.fr(st, "mod_"+e.Name, x.tm.Sort(ft))
		x.fact(st, v, ft)
		x.store(st, ad, Val{T: v})
		return
	}
	panic(unsup("modifies target"))
}

// ---- builtins

func (x *Exec) builtin(st *State, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, k cont) {
	c := x.c
	one := func(t *Term) { k(st, []Val{{T: t}}) }
	switch b.Name() {
	case "len":
		one(x.length(st, args[0], cc.Args[0].Type()))
	case "cap":
		switch u := under(cc.Args[0].Type()).(type) {
		case *types.Slice:
			one(c.Sel(x.term(st, args[0]), 3))
		case *types.Array:
			one(c.Int(u.Len()))
		default:
			t := x.fr(st, "cap", "Int")
			x.assume(st, c.Le(c.Int(0), t))
			one(t)
		}
	case "append":
		x.append(st, in, cc, args, k)
	case "copy":
		x.copy(st, cc, args, k)
	case "min", "max":
		r := x.term(st, args[0])
		for _, a := range args[1:] {
			t := x.term(st, a)
			var less *Term
			if r.sort == "Int" {
				less = c.Le(r, t)
			} else {
				panic(unsup("min/max"))
			}
			if b.Name() == "min" {
				r = c.Ite(less, r, t)
			} else {
				r = c.Ite(less, t, r)
			}
		}
		one(r)
	case "delete":
		mt := under(cc.Args[0].Type()).(*types.Map)
		x.mapDelete(st, mt, x.term(st, args[0]), x.term(st, args[1]))
		k(st, nil)
	case "clear":
		if mt, ok := under(cc.Args[0].Type()).(*types.Map); ok {
			h, key, ms := x.mapOf(st, mt)
			st.heap[key] = c.Store(h, x.term(st, args[0]), x.emptyMap(ms))
			k(st, nil)
			return
		}
		panic(unsup("clear"))
	case "close":
		if _, ok := x.w.specs.Ghosts["chClosed"]; ok {
			key := "ghost:chClosed"
			x.keySort[key] = x.ghostSort("chClosed")
			h := x.heapGet(st, key, x.keySort[key])
			ch := x.term(st, args[0])
			x.safety(st, "close-of-nil-or-closed-channel", in, c.And(c.Lt(c.Int(0), ch), c.Eq(c.Select(h, ch), c.Int(0))))
			st.heap[key] = c.Store(h, ch, c.Int(1))
		}
		k(st, nil)
	case "print", "println":
		k(st, nil)
	case "recover":
		one(c.Mk("Iface", c.Int(0), c.Int(0)))
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	default:
		panic(unsup("builtin %s", b.Name()))
	}
}

func (x *Exec) length(st *State, v Val, t types.Type) *Term {
	c := x.c
	switch u := under(t).(type) {
	case *types.Slice:
		return c.Sel(x.term(st, v), 2)
	case *types.Array:
		return c.Int(u.Len())
	case *types.Pointer:
		return c.Int(under(u.Elem()).(*types.Array).Len())
	case *types.Map:
		m := x.term(st, v)
		return c.Sel(x.mapVal(st, u, m), 2)
	case *types.Basic:
		s := x.term(st, v)
		l := x.slen(s)
		if len(l.fv) == 0 {
			x.assume(st, x.tm.Fact(s, t, st.next, 1))
		}
		return l
	case *types.Chan:
		l := x.fr(st, "chlen", "Int")
		x.assume(st, c.Le(c.Int(0), l))
		return l
	}
	panic(unsup("len of %s", t))
}

func (x *Exec) append(st *State, in ssa.Instruction, cc *ssa.CallCommon, args []Val, k cont) {
	c := x.c
	s := x.term(st, args[0])
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	ref, off, l, cp := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2), c.Sel(s, 3)
	if len(args) == 1 {
		k(st, []Val{args[0]})
		return
	}
	var n *Term                   // number of appended elements
	var at func(i *Term) *Term    // appended element
	var lit int64 = -1
	if x.tm.Sort(cc.Args[1].Type()) == "Str" {
		str := x.term(st, args[1])
		n = x.slen(str)
		at = func(i *Term) *Term { return c.App("sat", "Int", str, i) }
	} else {
		s2 := x.term(st, args[1])
		n = c.Sel(s2, 2)
		m, _ := x.memOf(st, el)
		a2 := c.Select(m, c.Sel(s2, 0))
		o2 := c.Sel(s2, 1)
		at = func(i *Term) *Term { return c.Select(a2, c.Add(o2, i)) }
	}
	if n.num != nil && n.num.Int64() <= 32 {
		lit = n.num.Int64()
	}
	if lit == 0 {
		k(st, []Val{args[0]})
		return
	}
	nl := c.Add(l, n)
	x.assume(st, c.Le(nl, c.Int(maxAlloc)))
	fill := func(st *State, arr, base *Term) *Term {
		if lit >= 0 {
			for i := int64(0); i < lit; i++ {
				arr = c.Store(arr, c.Add(base, c.Int(i)), at(c.Int(i)))
			}
			return arr
		}
		na := x.fr(st, "app", arr.sort)
		b := c.Bound("k", "Int")
		body := c.Eq(c.Select(na, b), c.Ite(c.And(c.Le(base, b), c.Lt(b, c.Add(base, n))), at(c.Sub(b, base)), c.Select(arr, b)))
		x.assume(st, c.Forall([]*Term{b}, body, []*Term{c.Select(na, b)}))
		// forward version: every appended element is found in the result
		b2 := c.Bound("j", "Int")
		src := at(b2)
		if src.op == "select" && !(src.args[1] == b2) {
			o2 := c.Sub(src.args[1], b2)
			body2 := c.Imp(c.And(c.Le(o2, b2), c.Lt(b2, c.Add(o2, n))), c.Eq(c.Select(na, c.Add(base, c.Sub(b2, o2))), c.Select(src.args[0], b2)))
			x.assume(st, c.Forall([]*Term{b2}, body2, []*Term{c.Select(src.args[0], b2)}))
		} else {
			body2 := c.Imp(c.And(c.Le(c.Int(0), b2), c.Lt(b2, n)), c.Eq(c.Select(na, c.Add(base, b2)), src))
			x.assume(st, c.Forall([]*Term{b2}, body2, []*Term{src}))
		}
		x.assume(st, c.Forall([]*Term{b2}, c.Imp(c.Not(c.And(c.Le(base, b2), c.Lt(b2, c.Add(base, n)))), c.Eq(c.Select(na, b2), c.Select(arr, b2))), []*Term{c.Select(arr, b2)}))
		return na
	}
	fits := c.Le(nl, cp)
	if !fits.isFalse() && x.feasible(st, fits) {
		s2 := st
		if !fits.isTrue() {
			s2 = st.clone()
			x.assume(s2, fits)
			s2.trace = append(s2.trace, x.pos(in.Pos())+" append in place")
		}
		m, key := x.memOf(s2, el)
		s2.heap[key] = c.Store(m, ref, fill(s2, c.Select(m, ref), c.Add(off, l)))
		k(s2, []Val{{T: c.Mk("Slice", ref, off, nl, cp)}})
		if fits.isTrue() {
			return
		}
	}
	if !fits.isTrue() && x.feasible(st, c.Not(fits)) {
		x.assume(st, c.Not(fits))
		nc := x.fr(st, "cap", "Int")
		x.assume(st, c.And(c.Le(nl, nc), c.Le(nc, c.Int(maxAlloc))))
		m, key := x.memOf(st, el)
		oldArr := c.Select(m, ref)
		r := x.newRef(st)
		var base *Term
		if l.num != nil && l.num.Int64() <= 16 {
			base = c.ConstArr(arrSort(x.tm.Sort(el)), x.tm.Zero(el))
			for i := int64(0); i < l.num.Int64(); i++ {
				base = c.Store(base, c.Int(i), c.Select(oldArr, c.Add(off, c.Int(i))))
			}
		} else if off.num != nil && off.num.Sign() == 0 {
			base = oldArr // elements past len are arbitrary anyway
		} else {
			base = x.fr(st, "grow", oldArr.sort)
			b := c.Bound("k", "Int")
			x.assume(st, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(c.Int(0), b), c.Lt(b, l)), c.Eq(c.Select(base, b), c.Select(oldArr, c.Add(off, b)))), []*Term{c.Select(base, b)}))
			x.assume(st, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(off, b), c.Lt(b, c.Add(off, l))), c.Eq(c.Select(base, c.Sub(b, off)), c.Select(oldArr, b))), []*Term{c.Select(oldArr, b)}))
		}
		m2, _ := x.memOf(st, el)
		st.heap[key] = c.Store(m2, r, fill(st, base, l))
		k(st, []Val{{T: c.Mk("Slice", r, c.Int(0), nl, nc)}})
	}
}

func (x *Exec) copy(st *State, cc *ssa.CallCommon, args []Val, k cont) {
	c := x.c
	d := x.term(st, args[0])
	el := under(cc.Args[0].Type()).(*types.Slice).Elem()
	dl, do, dr := c.Sel(d, 2), c.Sel(d, 1), c.Sel(d, 0)
	var n, sl *Term
	var at func(i *Term) *Term
	m, key := x.memOf(st, el)
	var srcArr, srcOff *Term
	if x.tm.Sort(cc.Args[1].Type()) == "Str" {
		s := x.term(st, args[1])
		sl = x.slen(s)
		at = func(i *Term) *Term { return c.App("sat", "Int", s, i) }
	} else {
		s := x.term(st, args[1])
		sl = c.Sel(s, 2)
		a2 := c.Select(m, c.Sel(s, 0))
		srcArr, srcOff = a2, c.Sel(s, 1)
		at = func(i *Term) *Term { return c.Select(a2, c.Add(c.Sel(s, 1), i)) }
	}
	switch {
	case dl == sl || x.entails(st, c.Le(dl, sl)):
		n = dl
	case x.entails(st, c.Le(sl, dl)):
		n = sl
	default:
		n = c.Ite(c.Le(dl, sl), dl, sl)
	}
	arr := c.Select(m, dr)
	var na *Term
	if n.num != nil && n.num.Int64() <= 32 {
		na = arr
		for i := int64(0); i < n.num.Int64(); i++ {
			v := at(c.Int(i))
			x.fact(st, v, el)
			na = c.Store(na, c.Add(do, c.Int(i)), v)
		}
	} else {
		na = x.fr(st, "cpy", arr.sort)
		b := c.Bound("k", "Int")
		in := c.And(c.Le(do, b), c.Lt(b, c.Add(do, n)))
		x.assume(st, c.Forall([]*Term{b}, c.Eq(c.Select(na, b), c.Ite(in, at(c.Sub(b, do)), c.Select(arr, b))), []*Term{c.Select(na, b)}))
		if srcArr != nil {
			x.assume(st, c.Forall([]*Term{b}, c.Imp(c.And(c.Le(srcOff, b), c.Lt(b, c.Add(srcOff, n))), c.Eq(c.Select(na, c.Add(do, c.Sub(b, srcOff))), c.Select(srcArr, b))), []*Term{c.Select(srcArr, b)}))
		}
		x.assume(st, c.Forall([]*Term{b}, c.Imp(c.Not(in), c.Eq(c.Select(na, b), c.Select(arr, b))), []*Term{c.Select(arr, b)}))
	}
	st.heap[key] = c.Store(m, dr, na)
	k(st, []Val{{T: n}})
}

var _ = token.ADD
