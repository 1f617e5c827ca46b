package main

import (
	"math/big"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont)

var intrinsics map[string]intrinsic

func init() {
	nop := func(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
		k(st, x.havocResults(st, sig, "nop"))
	}
	intrinsics = map[string]intrinsic{
		"sync.Mutex.Lock":       lockFn,
		"sync.Mutex.Unlock":     unlockFn,
		"sync.RWMutex.Lock":     lockFn,
		"sync.RWMutex.Unlock":   unlockFn,
		"sync.RWMutex.RLock":    lockFn,
		"sync.RWMutex.RUnlock":  unlockFn,
		"sync.WaitGroup.Add":    nop,
		"sync.WaitGroup.Done":   nop,
		"sync.WaitGroup.Wait":   nop,
		"errors.New":            errNew,
		"fmt.Errorf":            errorf,
		"errors.Is":             errorsIs,
		"fmt.Sprintf":           nop,
		"fmt.Sprint":            nop,
		"fmt.Sprintln":          nop,
		"sort.Search":           sortSearch,
		"sort.Slice":            sortSlice,
		"time.Time.Before":      timeCmp("<"),
		"time.Time.After":       timeCmp(">"),
		"time.Time.Equal":       timeCmp("=="),
		"time.Time.Compare":     timeCmp("cmp"),
		"time.Time.UnixMilli":   timeUnixMilli,
		"time.UnixMilli":        timeFromMilli,
		"time.Time.IsZero":      timeIsZero,
		"time.Now":              timeNow,
		"time.Time.Add":         timeAdd,
		"time.Time.Sub":         timeSub,
		"time.Unix":             timeUnix,
		"time.Time.UnixNano":    timeParts("nano"),
		"time.Time.Unix":        timeParts("sec"),
		"time.Time.Nanosecond":  timeParts("ns"),
		"time.Time.Truncate":    timeTruncate,
		"bytes.Equal":           bytesEqual,
		"bytes.Compare":         bytesCompare,
		"strings.Compare":       stringsCompare,
		"cmp.Compare":           cmpCompare,
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool", "Value"} {
		_ = t
	}
}

// ---- errors

// isErr models errors.Is: a reflexive relation decided by the wrap chain.
func (x *Exec) isErr(st *State, e, t *Term) *Term {
	c := x.c
	if len(e.fv)+len(t.fv) > 0 {
		r := c.App("isErr", "Bool", e, t)
		if len(e.fv) == 0 {
			tb := c.Bound("t", "Iface")
			q := c.App("isErr", "Bool", e, tb)
			tg := c.Sel(e, 0)
			x.assume(st, c.Forall([]*Term{tb}, c.And(
				c.Imp(c.Eq(tg, c.Int(0)), c.Eq(q, c.Eq(c.Sel(tb, 0), c.Int(0)))),
				c.Imp(c.Eq(tg, c.Int(sentinelTag)), c.Eq(q, c.Eq(e, tb))),
				c.Imp(c.Eq(e, tb), q)), []*Term{q}))
		}
		return r
	}
	tag := c.Sel(e, 0)
	if tag.num != nil {
		switch tag.num.Int64() {
		case 0:
			return c.Eq(c.Sel(t, 0), c.Int(0))
		case sentinelTag:
			return c.Eq(e, t)
		}
	}
	if e == t {
		return c.True()
	}
	r := c.App("isErr", "Bool", e, t)
	x.assume(st, c.Imp(c.Eq(tag, c.Int(0)), c.Eq(r, c.Eq(c.Sel(t, 0), c.Int(0)))))
	x.assume(st, c.Imp(c.Eq(tag, c.Int(sentinelTag)), c.Eq(r, c.Eq(e, t))))
	x.assume(st, c.Imp(c.Eq(e, t), r))
	x.assume(st, c.Imp(c.And(c.Eq(c.Sel(t, 0), c.Int(0)), c.Ne(tag, c.Int(0))), c.Not(r)))
	return r
}

func (x *Exec) newErr(st *State, tag int64) *Term {
	r := x.newRef(st)
	return x.c.Mk("Iface", x.c.Int(tag), r)
}

func errNew(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	e := x.newErr(st, sentinelTag)
	k(st, []Val{{T: e}})
}

const wrapTag = 900002

// errorf: a fresh error; %w operands are in its chain.
func errorf(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	e := x.newErr(st, wrapTag)
	f := x.term(st, args[0])
	format, known := c.strVal[f]
	wraps := []*Term{}
	if known && strings.Contains(format, "%w") {
		// positions of the verbs
		n := 0
		va := x.term(st, args[1])
		m, _ := x.memOf(st, types.Universe.Lookup("any").Type())
		arr := c.Select(m, c.Sel(va, 0))
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				continue
			}
			i++
			for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
				i++
			}
			if i < len(format) && format[i] == '%' {
				continue
			}
			if i < len(format) && format[i] == 'w' {
				wraps = append(wraps, c.Select(arr, c.Add(c.Sel(va, 1), c.Int(int64(n)))))
			}
			n++
		}
	}
	t := c.Bound("t", "Iface")
	r := c.mk("isErr", "Bool", e, t)
	c.decls["isErr"] = "(Iface Iface) Bool"
	alts := []*Term{c.Eq(e, t)}
	for _, w := range wraps {
		alts = append(alts, c.And(c.Ne(c.Sel(w, 0), c.Int(0)), c.App("isErr", "Bool", w, t)))
	}
	x.assume(st, c.Forall([]*Term{t}, c.Eq(r, c.Or(alts...)), []*Term{r}))
	// a wrapped sentinel only matches itself
	for _, w := range wraps {
		if tg := c.Sel(w, 0); tg.num != nil && tg.num.Int64() == sentinelTag {
			tb := c.Bound("t", "Iface")
			x.assume(st, c.Forall([]*Term{tb}, c.Eq(c.App("isErr", "Bool", w, tb), c.Eq(w, tb)), []*Term{c.App("isErr", "Bool", w, tb)}))
		}
		st.wraps = append(st.wraps, [2]*Term{e, w})
	}
	k(st, []Val{{T: e}})
}

func errorsIs(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	k(st, []Val{{T: x.isErr(st, x.term(st, args[0]), x.term(st, args[1]))}})
}

// ---- locks

func (x *Exec) monitorOf(st *State, a *Addr) (*Monitor, *Addr) {
	if len(a.path) == 0 {
		return nil, nil
	}
	last := a.path[len(a.path)-1]
	own := *a
	own.path = a.path[:len(a.path)-1]
	t := x.pathType(&own)
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil, nil
	}
	k := typeKey(t)
	if i := strings.Index(k, "["); i > 0 {
		k = k[:i]
	}
	return x.w.specs.Monitors[k+"."+s.Field(last.field).Name()], &own
}

func (x *Exec) monEnv(st *State, m *Monitor, own *Addr, pol int) *Env {
	env := &Env{x: x, st: st, vars: map[string]TV{}, fn: x.root, pol: pol, pkg: x.w.pkgOf(m.Pkg)}
	t := x.pathType(own)
	env.vars[m.Recv] = TV{v: Val{A: own}, t: types.NewPointer(t)}
	return env
}

func lockFn(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	a := x.addr(st, args[0], types.NewPointer(deref(cl.fn.Signature.Recv().Type())))
	m, own := x.monitorOf(st, a)
	if variant(x.con) != "" {
		x.assumed["contracts #"+variant(x.con)+": sequential histories, locks have no effect"] = true
		k(st, nil)
		return
	}
	if m == nil {
		x.note("lock operations on a mutex without a monitor have no effect on tracked state")
		k(st, nil)
		return
	}
	x.ctrUsed["monitor "+m.Type+"."+m.Lock] = true
	hk := m.Type + "." + m.Lock + "@" + fmt.Sprint(x.term(st, Val{A: a}).id)
	if st.held[hk] {
		x.safety(st, "lock-already-held", in, x.c.False())
		return
	}
	env := x.monEnv(st, m, own, 1)
	pre := st.clone()
	x.bumpNext(st)
	old := st.clone()
	for _, mc := range m.Mods {
		e2 := *env
		e2.st = old
		e2.cur = st
		x.havocTarget(st, mc.E, &e2)
		x.frameTarget(st, mc.E, env, func(key string, ref *Term, fix func(cur, init *Term) *Term) { st.held["mod:"+key] = true })
	}
	for _, i := range m.Invs {
		x.assume(st, x.evalBool(i.E, env))
	}
	env.old = pre
	for _, i := range m.Stable {
		x.assume(st, x.evalBool(i.E, env))
	}
	st.held[hk] = true
	snap := st.clone()
	st.lockSt[hk] = snap
	st.lockSt[m.Type+"."+m.Lock] = snap
	st.lockSt["last"] = snap
	k(st, nil)
}

func unlockFn(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	a := x.addr(st, args[0], types.NewPointer(deref(cl.fn.Signature.Recv().Type())))
	m, own := x.monitorOf(st, a)
	if variant(x.con) != "" {
		x.assumed["contracts #"+variant(x.con)+": sequential histories, locks have no effect"] = true
		k(st, nil)
		return
	}
	if m == nil {
		k(st, nil)
		return
	}
	hk := m.Type + "." + m.Lock + "@" + fmt.Sprint(x.term(st, Val{A: a}).id)
	if !st.held[hk] {
		x.safety(st, "unlock-of-unlocked", in, x.c.False())
		return
	}
	env := x.monEnv(st, m, own, -1)
	base := st.as
	for i, c := range m.Invs {
		st.as = base
		x.oblige(st, "monitor", fmt.Sprintf("%s/unlock:%s", shortKey(funcKey(x.root)), clauseName(c, "monitor-inv", i)), in.Pos(), x.evalBool(c.E, env))
	}
	env.old = st.lockSt[hk]
	for i, c := range m.Guar {
		st.as = base
		x.oblige(st, "monitor", fmt.Sprintf("%s/unlock:%s", shortKey(funcKey(x.root)), clauseName(c, "guarantee", i)), in.Pos(), x.evalBool(c.E, env))
	}
	if x.con != nil && len(x.con.Guar) > 0 {
		e2 := &Env{x: x, st: st, old: st.lockSt[hk], vars: cp(x.entryEnv), fn: x.root, con: x.con, pol: -1, pkg: x.w.pkgOf(x.con.Pkg)}
		for i, c := range x.con.Guar {
			st.as = base
			x.oblige(st, "guarantee", fmt.Sprintf("%s/%s", shortKey(x.con.Key), clauseName(c, "guarantee", i)), in.Pos(), x.evalBool(c.E, e2))
		}
	}
	if x.con != nil && len(x.con.USets) > 0 {
		e2 := &Env{x: x, st: st, old: st.lockSt[hk], vars: cp(x.entryEnv), fn: x.root, con: x.con, pol: 0, pkg: x.w.pkgOf(x.con.Pkg)}
		vals := map[string]*Term{}
		for _, c := range x.con.USets {
			vals[c.Name] = x.term(st, x.rv(x.eval(c.E, e2), e2).v)
		}
		for n, v := range vals {
			key := "ghost:" + n
			x.keySort[key] = x.ghostSort(n)
			st.heap[key] = v
		}
	}
	// what the other goroutines may rely on, once the ghost state is set
	env = x.monEnv(st, m, own, -1)
	env.old = st.lockSt[hk]
	base = st.as
	for i, c := range m.Stable {
		st.as = base
		x.oblige(st, "monitor", fmt.Sprintf("%s/unlock:%s", shortKey(funcKey(x.root)), clauseName(c, "stable", i)), in.Pos(), x.evalBool(c.E, env))
	}
	delete(st.held, hk)
	st.lockSt["unlocked"] = st.clone()
	k(st, nil)
}

// ---- time: time.Time is modelled by an integer number of nanoseconds (wall clock only)

func (x *Exec) nanos(t *Term) *Term { return x.c.App("nanos", "Int", t) }

func timeCmp(op string) intrinsic {
	return func(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
		c := x.c
		a, b := x.nanos(x.term(st, args[0])), x.nanos(x.term(st, args[1]))
		var r *Term
		switch op {
		case "<":
			r = c.Lt(a, b)
		case ">":
			r = c.Lt(b, a)
		case "==":
			r = c.Eq(a, b)
		case "cmp":
			r = c.Ite(c.Lt(a, b), c.Int(-1), c.Ite(c.Lt(b, a), c.Int(1), c.Int(0)))
		}
		k(st, []Val{{T: r}})
	}
}

func timeUnixMilli(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	t := x.nanos(x.term(st, args[0]))
	r := c.EDiv(t, c.Int(1000000))
	x.note("time.Time values lie within the range where UnixMilli does not overflow")
	x.fact(st, r, types.Typ[types.Int64])
	k(st, []Val{{T: r}})
}

func timeFromMilli(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	ms := x.term(st, args[0])
	rt := sig.Results().At(0).Type()
	t := c.App("unixMilli", x.tm.Sort(rt), ms)
	x.assume(st, c.Eq(x.nanos(t), c.Mul(c.Int(1000000), ms)))
	k(st, []Val{{T: t}})
}

// timeAt: the time.Time value with n nanoseconds.
func (x *Exec) timeAt(st *State, t types.Type, name string, n *Term, args ...*Term) Val {
	r := x.c.App(name, x.tm.Sort(t), args...)
	x.assume(st, x.c.Eq(x.nanos(r), n))
	return Val{T: r}
}

func timeAdd(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	t, d := x.term(st, args[0]), x.term(st, args[1])
	x.note("time.Time arithmetic does not leave the representable range")
	k(st, []Val{x.timeAt(st, sig.Results().At(0).Type(), "timeAdd", x.c.Add(x.nanos(t), d), t, d)})
}

func timeSub(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	d := c.Sub(x.nanos(x.term(st, args[0])), x.nanos(x.term(st, args[1])))
	lo, hi := c.Num(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))), c.Num(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))
	k(st, []Val{{T: c.Ite(c.Lt(d, lo), lo, c.Ite(c.Lt(hi, d), hi, d))}})
}

func timeUnix(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	s, n := x.term(st, args[0]), x.term(st, args[1])
	k(st, []Val{x.timeAt(st, sig.Results().At(0).Type(), "timeUnix", c.Add(c.Mul(c.Int(1000000000), s), n), s, n)})
}

func timeParts(part string) intrinsic {
	return func(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
		c := x.c
		t := x.nanos(x.term(st, args[0]))
		var r *Term
		switch part {
		case "nano":
			x.note("time.Time values lie within the range where UnixNano does not overflow")
			r = t
		case "sec":
			r = c.EDiv(t, c.Int(1000000000))
		case "ns":
			r = c.EMod(t, c.Int(1000000000))
		}
		x.fact(st, r, sig.Results().At(0).Type())
		k(st, []Val{{T: r}})
	}
}

func timeTruncate(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	t, d := x.term(st, args[0]), x.term(st, args[1])
	if d.num == nil || d.num.Sign() <= 0 || new(big.Int).Mod(big.NewInt(1000000000), d.num).Sign() != 0 {
		panic(unsup("Time.Truncate with a duration that does not divide one second"))
	}
	n := x.nanos(t)
	k(st, []Val{x.timeAt(st, sig.Results().At(0).Type(), "timeTrunc", c.Sub(n, c.EMod(n, d)), t, d)})
}

func timeIsZero(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	t := x.term(st, args[0])
	k(st, []Val{{T: c.Eq(x.nanos(t), c.Const("nanosZero", "Int"))}})
}

func timeNow(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	rs := x.havocResults(st, sig, "now")
	if _, ok := x.w.specs.Ghosts["lastNow"]; ok {
		key := "ghost:lastNow"
		x.keySort[key] = x.ghostSort("lastNow")
		st.heap[key] = x.nanos(x.term(st, rs[0]))
	}
	k(st, rs)
}

// ---- comparison helpers

func (x *Exec) bytesEq(st *State, a, b *Term) *Term {
	c := x.c
	m, _ := x.memOf(st, types.Typ[types.Uint8])
	i := c.Bound("i", "Int")
	return c.And(c.Eq(c.Sel(a, 2), c.Sel(b, 2)), c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Sel(a, 2))),
		c.Eq(c.Select(c.Select(m, c.Sel(a, 0)), c.Add(c.Sel(a, 1), i)), c.Select(c.Select(m, c.Sel(b, 0)), c.Add(c.Sel(b, 1), i))))))
}

func bytesEqual(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	a, b := x.term(st, args[0]), x.term(st, args[1])
	r := x.fr(st, "beq", "Bool")
	m, _ := x.memOf(st, types.Typ[types.Uint8])
	i := c.Bound("i", "Int")
	A, B := c.Select(m, c.Sel(a, 0)), c.Select(m, c.Sel(b, 0))
	x.assume(st, c.Imp(r, c.Eq(c.Sel(a, 2), c.Sel(b, 2))))
	oa, ob := c.Sel(a, 1), c.Sel(b, 1)
	x.assume(st, c.Imp(r, c.Forall([]*Term{i}, c.Imp(c.And(c.Le(oa, i), c.Lt(i, c.Add(oa, c.Sel(a, 2)))), c.Eq(c.Select(A, i), c.Select(B, c.Add(ob, c.Sub(i, oa))))), []*Term{c.Select(A, i)})))
	w := x.fr(st, "diff", "Int")
	x.assume(st, c.Imp(c.And(c.Not(r), c.Eq(c.Sel(a, 2), c.Sel(b, 2))), c.And(c.Le(c.Int(0), w), c.Lt(w, c.Sel(a, 2)), c.Ne(c.Select(A, c.Add(oa, w)), c.Select(B, c.Add(ob, w))))))
	k(st, []Val{{T: r}})
}

func bytesCompare(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	r := x.fr(st, "bcmp", "Int")
	x.assume(st, c.And(c.Le(c.Int(-1), r), c.Le(r, c.Int(1))))
	k(st, []Val{{T: r}})
}

func stringsCompare(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	a, b := x.term(st, args[0]), x.term(st, args[1])
	k(st, []Val{{T: c.Ite(c.Eq(a, b), c.Int(0), c.Ite(x.strLess(st, a, b), c.Int(-1), c.Int(1)))}})
}

func cmpCompare(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	a, b := x.term(st, args[0]), x.term(st, args[1])
	switch a.sort {
	case "Int":
		k(st, []Val{{T: c.Ite(c.Eq(a, b), c.Int(0), c.Ite(c.Lt(a, b), c.Int(-1), c.Int(1)))}})
	case "Str":
		stringsCompare(x, st, in, cl, args, sig, k)
	default:
		panic(unsup("cmp.Compare on %s", a.sort))
	}
}

// sortSearch: the result r has f(r) (or r == n) and not f(r-1) (or r == 0), for any f.
func sortSearch(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	n := x.term(st, args[0])
	f := args[1].C
	if f == nil && args[1].T != nil {
		f = st.closures[args[1].T]
	}
	if f == nil {
		panic(unsup("sort.Search with an unknown function"))
	}
	r := x.fr(st, "search", "Int")
	x.assume(st, c.And(c.Le(c.Int(0), r), c.Le(r, n), c.Imp(c.Lt(n, c.Int(0)), c.Eq(r, c.Int(0)))))
	x.assume(st, c.Or(c.Le(c.Int(0), n)))
	fs := f.fn.Signature
	step := func(st *State, cond, arg *Term, want bool, k func(*State)) {
		if cond.isFalse() {
			k(st)
			return
		}
		if x.feasible(st, c.Not(cond)) {
			s2 := st.clone()
			x.assume(s2, c.Not(cond))
			k(s2)
		}
		if x.feasible(st, cond) {
			x.assume(st, cond)
			x.callFn(st, in, f, []Val{{T: arg}}, fs, func(st *State, res []Val) {
				t := x.term(st, res[0])
				if !want {
					t = c.Not(t)
				}
				if x.feasible(st, t) {
					x.assume(st, t)
					k(st)
				}
			})
		}
	}
	step(st, c.Lt(r, n), r, true, func(st *State) {
		step(st, c.Lt(c.Int(0), r), c.Sub(r, c.Int(1)), false, func(st *State) {
			k(st, []Val{{T: r}})
		})
	})
}

// sortSlice permutes the elements of the slice; the resulting order is not modelled.
func sortSlice(x *Exec, st *State, in ssa.Instruction, cl *Closure, args []Val, sig *types.Signature, k cont) {
	c := x.c
	mi, ok := in.(ssa.CallInstruction).Common().Args[0].(*ssa.MakeInterface)
	if !ok {
		panic(unsup("sort.Slice of an unknown slice"))
	}
	sl, ok := under(mi.X.Type()).(*types.Slice)
	if !ok {
		panic(unsup("sort.Slice of %s", mi.X.Type()))
	}
	s := x.term(st, x.val(st, mi.X))
	r, off, n := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2)
	m, key := x.memOf(st, sl.Elem())
	old := c.Select(m, r)
	now := x.fr(st, "sorted", old.sort)
	p, q := x.fr(st, "perm", arrSort("Int")), x.fr(st, "iperm", arrSort("Int"))
	in_ := func(j *Term) *Term { return c.And(c.Le(off, j), c.Lt(j, c.Add(off, n))) }
	j := c.Bound("j", "Int")
	x.assume(st, c.Forall([]*Term{j}, c.And(
		c.Imp(in_(j), c.And(in_(c.Select(p, j)), c.Eq(c.Select(now, j), c.Select(old, c.Select(p, j))), c.Eq(c.Select(q, c.Select(p, j)), j))),
		c.Imp(c.Not(in_(j)), c.Eq(c.Select(now, j), c.Select(old, j)))), []*Term{c.Select(now, j)}))
	i := c.Bound("i", "Int")
	x.assume(st, c.Forall([]*Term{i}, c.Imp(in_(i), c.And(in_(c.Select(q, i)), c.Eq(c.Select(p, c.Select(q, i)), i), c.Eq(c.Select(now, c.Select(q, i)), c.Select(old, i)))), []*Term{c.Select(old, i)}))
	st.heap[key] = c.Store(m, r, now)
	x.note("sort.Slice permutes its argument into the order of its less function, which has no effect")
	x.sortedBy(st, in, args[1], r, off, n, now)
	k(st, nil)
}

// sortedBy evaluates the less function for two places and states the order, when it is one path long and compares.
func (x *Exec) sortedBy(st *State, in ssa.Instruction, fn Val, r, off, n, now *Term) {
	c := x.c
	cl := fn.C
	if cl == nil && fn.T != nil {
		cl = st.closures[fn.T]
	}
	if cl == nil || len(cl.fn.Params) != 2 {
		return
	}
	s2 := st.clone()
	ci, cj := x.fr(s2, "li", "Int"), x.fr(s2, "lj", "Int")
	for _, t := range []*Term{ci, cj} {
		x.assume(s2, c.And(c.Le(c.Int(0), t), c.Lt(t, n)))
	}
	f0 := s2.fresh
	var got []*Term
	bad := false
	x.callFn(s2, in, cl, []Val{{T: ci}, {T: cj}}, cl.fn.Signature, func(s3 *State, outs []Val) {
		t := x.term(s3, outs[0])
		bad = bad || s3.fresh != f0 || t.quan
		if bad {
			return
		}
		// an order must not hold both ways
		if !x.entails(s3, c.Not(c.And(t, c.Replace(t, map[*Term]*Term{ci: cj, cj: ci})))) {
			bad = true
			return
		}
		got = append(got, t)
	})
	if bad || len(got) != 1 {
		return
	}
	a, b := c.Bound("a", "Int"), c.Bound("b", "Int")
	t := c.Replace(got[0], map[*Term]*Term{ci: c.Sub(b, off), cj: c.Sub(a, off)})
	x.assume(st, c.Forall([]*Term{a, b}, c.Imp(c.And(c.Le(off, a), c.Lt(a, b), c.Lt(b, c.Add(off, n))), c.Not(t)), []*Term{c.Select(now, a), c.Select(now, b)}))
}
