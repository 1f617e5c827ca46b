package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	idx  int
}

func findLoops(f *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := out[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					y := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range y.Preds {
						if !l.body[p] {
							l.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	var hs []*Loop
	for _, l := range out {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].head.Index < hs[j].head.Index })
	for i, l := range hs {
		l.idx = i
	}
	return out
}

type loopVar struct {
	name string
	typ  types.Type
	phi  *ssa.Phi
	cell int // aCell id, if phi is nil
}

// cand is a candidate invariant of a loop.
type cand struct {
	key     string
	user    bool
	src     string
	dropped bool
	eval    func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term
}

type modRec struct {
	full    bool
	targets []*Term
}

// LoopRec accumulates what the rounds learned about one loop (at one call path).
type LoopRec struct {
	key   string
	cands map[string]*cand
	order []string
	mods  map[string]*modRec
	cells map[int]bool
	ghost map[string]bool
	seen  bool
	next  bool
}

type candCheck struct {
	rec  *LoopRec
	c    *cand
	as   []*Term
	goal *Term
	at   string
}

func (x *Exec) loopVars(st *State, rec *LoopRec, phis []*ssa.Phi) []loopVar {
	var out []loopVar
	for _, p := range phis {
		out = append(out, loopVar{name: p.Comment, typ: p.Type(), phi: p})
	}
	var ids []int
	for id := range rec.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if ce, ok := st.cells[id]; ok {
			out = append(out, loopVar{name: fmt.Sprintf("cell%d", id), typ: ce.typ, cell: id})
		}
	}
	return out
}

func (x *Exec) varVals(st *State, vars []loopVar, phiVals []Val) []Val {
	var out []Val
	for i, v := range vars {
		if v.phi != nil {
			out = append(out, phiVals[i])
		} else {
			out = append(out, st.cells[v.cell].v)
		}
	}
	return out
}

func (x *Exec) loopEnter(st *State, lp *Loop, phis []*ssa.Phi, inits []Val) bool {
	c := x.c
	f := st.top()
	key := fmt.Sprintf("%s#%d", f.path, lp.head.Index)
	for _, ol := range sortedLoops(f.unr) {
		if ol != lp && ol.body[lp.head] {
			if m, _ := x.loopMode(f.fn, ol); m != "" {
				key += fmt.Sprintf("@%d:%d", ol.head.Index, f.unr[ol])
			}
		}
	}
	rec := x.loops[key]
	if rec == nil {
		rec = &LoopRec{key: key, cands: map[string]*cand{}, mods: map[string]*modRec{}, cells: map[int]bool{}, ghost: map[string]bool{}}
		x.loops[key] = rec
	}
	// make sure init values are terms
	for i := range inits {
		if inits[i].C != nil || inits[i].A != nil {
			inits[i].T = x.term(st, inits[i])
		}
	}
	pre := st.clone()
	lc := &loopCtx{lp: lp, rec: rec, pre: pre, frame: len(st.frames) - 1, nextE: st.next}
	lc.vars = x.loopVars(st, rec, phis)
	lc.inits = x.varVals(st, lc.vars, inits)
	x.genCands(st, lc, f)
	// entry check
	for _, k := range rec.order {
		cd := rec.cands[k]
		if cd.dropped {
			continue
		}
		x.checkCand(st, lc, cd, lc.inits, c.Int(0), "entry")
	}
	// havoc
	lc.n = x.fr(st, "it", "Int")
	x.assume(st, c.Le(c.Int(0), lc.n))
	x.bumpNext(st)
	for i, ph := range phis {
		// only forget values that can change
		t := x.fr(st, "phi_"+ph.Comment, x.tm.Sort(ph.Type()))
		_ = i
		x.fact(st, t, ph.Type())
		x.set(st, ph, Val{T: t})
	}
	for _, k := range sortedKeys(rec.mods) {
		m := rec.mods[k]
		cur := x.heapGet(st, k, x.keySort[k])
		if m.full {
			st.heap[k] = x.fr(st, "Hl$"+clean(trunc(k, 30)), x.keySort[k])
			continue
		}
		if len(m.targets) == 0 {
			// only objects allocated inside the loop change
			continue
		}
		for _, t := range m.targets {
			if lc.elsewhere(t) {
				continue
			}
			cur = c.Store(cur, t, x.fr(st, "obj", elemSort(x.keySort[k])))
		}
		st.heap[k] = cur
	}
	for id := range rec.cells {
		if ce, ok := st.cells[id]; ok {
			t := x.fr(st, "cell", x.tm.Sort(ce.typ))
			x.fact(st, t, ce.typ)
			st.cells[id] = cell{Val{T: t}, ce.typ}
		}
	}
	for _, g := range sortedKeys(rec.ghost) {
		if t, ok := st.ghost[g]; ok {
			st.ghost[g] = x.fr(st, "gh", t.sort)
		}
	}
	var pv []Val
	for _, ph := range phis {
		pv = append(pv, f.env[ph])
	}
	f = st.top()
	for i := range pv {
		pv[i] = f.env[phis[i]]
	}
	lc.phiVal = pv
	vals := x.varVals(st, lc.vars, pv)
	for _, k := range rec.order {
		cd := rec.cands[k]
		if cd.dropped {
			continue
		}
		t := x.evalCand(cd, st, lc, vals, lc.n, 1)
		if t != nil {
			x.assume(st, t)
		}
	}
	lc.hst = x.snap(st)
	f.loops = append(f.loops, lc)
	return x.feasible(st, c.True())
}

func (x *Exec) evalCand(cd *cand, st *State, lc *loopCtx, vals []Val, n *Term, pol int) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsup); ok {
				cd.dropped = true
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.eval(x, st, lc, vals, n, pol)
}

func (x *Exec) checkCand(st *State, lc *loopCtx, cd *cand, vals []Val, n *Term, at string) {
	s2 := st
	t := x.evalCand(cd, s2, lc, vals, n, -1)
	if t == nil || t.isTrue() {
		return
	}
	x.cands = append(x.cands, &candCheck{rec: lc.rec, c: cd, as: append(st.assumptions(), x.lemmas...), goal: t, at: at})
}

func (x *Exec) loopBack(st *State, lp *Loop, phis []*ssa.Phi, vals []Val) {
	c := x.c
	f := st.top()
	lc := f.loops[len(f.loops)-1]
	for i := range vals {
		if vals[i].C != nil || vals[i].A != nil {
			vals[i].T = x.term(st, vals[i])
		}
	}
	// which heap parts changed
	rec := lc.rec
	for _, k := range sortedKeys(st.heap) {
		cur := st.heap[k]
		hd, ok := lc.hst.heap[k]
		if !ok {
			hd = x.heapGet(&State{heap: map[string]*Term{}, epoch: st.epoch}, k, x.keySort[k])
		}
		if cur == hd {
			continue
		}
		x.heapDiff(st, lc, rec, k, cur, hd)
	}
	for id, ce := range lc.hst.cells {
		if now, ok := st.cells[id]; ok {
			if !rec.cells[id] && x.safeTerm(st, now.v) != x.safeTerm(st, ce.v) {
				rec.cells[id] = true
				x.changed = true
			}
		}
	}
	for g, t := range lc.hst.ghost {
		if now, ok := st.ghost[g]; ok && now != t && !rec.ghost[g] {
			rec.ghost[g] = true
			x.changed = true
		}
	}
	if x.changed && !x.final {
		// still learning the modified set; candidates are checked once it is stable
		if rec.next {
			return
		}
	}
	n1 := c.Add(lc.n, c.Int(1))
	// expose phi values for candidate evaluation
	vv := x.varVals(st, lc.vars, vals)
	for _, k := range rec.order {
		cd := rec.cands[k]
		if cd.dropped {
			continue
		}
		x.checkCand(st, lc, cd, vv, n1, "back")
	}
}

func (x *Exec) safeTerm(st *State, v Val) *Term {
	defer func() { recover() }()
	return x.term(st, v)
}

// heapDiff learns which pre-existing objects of heap key k the loop body changes.
func (x *Exec) heapDiff(st *State, lc *loopCtx, rec *LoopRec, k string, cur, hd *Term) {
	c := x.c
	m := rec.mods[k]
	if m == nil {
		m = &modRec{}
		rec.mods[k] = m
		x.changed = true
	}
	if m.full {
		return
	}
	var refs []*Term
	chain := func(t *Term) (map[*Term]bool, []*Term) {
		seen := map[*Term]bool{t: true}
		var rs []*Term
		for t.op == "store" {
			rs = append(rs, t.args[1])
			t = t.args[0]
			seen[t] = true
		}
		return seen, rs
	}
	hs, hr := chain(hd)
	t := cur
	for !hs[t] {
		if t.op != "store" || !strings.HasPrefix(t.sort, "(Array Int") || strings.HasPrefix(k, "g:") {
			m.full = true
			x.changed = true
			return
		}
		refs = append(refs, t.args[1])
		t = t.args[0]
	}
	if t != hd {
		// stores of the header state may have been overwritten
		all := append(append([]*Term{}, refs...), hr...)
		refs = nil
		for _, r := range all {
			if c.Select(cur, r) != c.Select(hd, r) {
				refs = append(refs, r)
			}
		}
	}
	hdrSyms := map[string]bool{}
	_ = hdrSyms
	for _, r := range refs {
		var alts []*Term
		alts = append(alts, c.Le(lc.nextE, r))
		for _, t := range m.targets {
			if !lc.elsewhere(t) {
				alts = append(alts, c.Eq(r, t))
			}
		}
		goal := c.Or(alts...)
		if x.entails(st, goal) {
			continue
		}
		if s := c.Script(append(st.assumptions(), x.lemmas...), goal, false); prove(s, 2e9, 0).status == "unsat" {
			continue
		}
		// try to add targets
		added := false
		add := func(t *Term) {
			for _, o := range m.targets {
				if o == t {
					if lc.elsewhere(t) { // cannot be: give the whole heap up
						m.full, x.changed, added = true, true, true
					}
					return
				}
			}
			m.targets = append(m.targets, t)
			x.changed = true
			added = true
		}
		if x.stable(r, lc) {
			add(r)
		} else {
			for i, v := range lc.vars {
				switch under(v.typ).(type) {
				case *types.Slice:
					if strings.HasPrefix(k, "m:") && k == "m:"+memKey(under(v.typ).(*types.Slice).Elem()) && lc.inits[i].T != nil {
						add(c.Sel(lc.inits[i].T, 0))
					}
				case *types.Pointer:
					if strings.HasPrefix(k, "h:") && lc.inits[i].T != nil && k == "h:"+typeKey(deref(v.typ)) {
						add(lc.inits[i].T)
					}
				}
			}
		}
		if !added {
			m.full = true
			x.changed = true
			return
		}
	}
}

// elsewhere: the target is an object that another path to the loop has allocated: its reference (next!n) is not a symbol
// of this path, where every allocation leaves an assumption that mentions it.
func (lc *loopCtx) elsewhere(t *Term) bool {
	key := t
	if r, ok := lc.else_[key]; ok {
		return r
	}
	if t.op == "+" && len(t.args) == 2 && len(t.args[0].args) == 0 && len(t.args[1].args) == 0 {
		if t.args[1].num != nil {
			t = t.args[0]
		} else if t.args[0].num != nil {
			t = t.args[1]
		}
	}
	r := false
	if strings.HasPrefix(t.op, "next!") && len(t.args) == 0 {
		seen := map[*Term]bool{}
		var has func(u *Term) bool
		has = func(u *Term) bool {
			if u == t {
				return true
			}
			if seen[u] {
				return false
			}
			seen[u] = true
			for _, a := range u.args {
				if has(a) {
					return true
				}
			}
			return false
		}
		r = true
		for a := lc.pre.as; a != nil && r; a = a.prev {
			r = !has(a.t)
		}
		if r {
			r = !has(lc.pre.next)
		}
	}
	if lc.else_ == nil {
		lc.else_ = map[*Term]bool{}
	}
	lc.else_[key] = r
	return r
}

// stable: the term only mentions symbols known at loop entry.
func (x *Exec) stable(t *Term, lc *loopCtx) bool {
	// symbols created at or after the header carry a counter larger than the pre-state's
	ok := true
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if i := strings.LastIndex(t.op, "!"); i > 0 && t.num == nil {
			n := 0
			fmt.Sscanf(t.op[i+1:], "%d", &n)
			if n > lc.pre.fresh {
				ok = false
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return ok
}

func (rec *LoopRec) add(x *Exec, key string, user bool, src string, ev func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term) {
	if _, ok := rec.cands[key]; ok {
		return
	}
	rec.cands[key] = &cand{key: key, user: user, src: src, eval: ev}
	rec.order = append(rec.order, key)
	x.changed = true
}

func (x *Exec) genCands(st *State, lc *loopCtx, f *Frame) {
	c := x.c
	rec := lc.rec
	vk := func(i int) string { return fmt.Sprintf("%s/%d", lc.vars[i].name, i) }
	// loop-invariant integer bounds compared in the loop
	type bound struct {
		key string
		get func(lc *loopCtx) *Term
	}
	var bounds []bound
	seenB := map[string]bool{}
	addB := func(k string, g func(lc *loopCtx) *Term) {
		if !seenB[k] {
			seenB[k] = true
			bounds = append(bounds, bound{k, g})
		}
	}
	preFrame := lc.pre.frames[lc.frame]
	var blocks []*ssa.BasicBlock
	for b := range lc.lp.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if basicInt(v.Type()) == nil {
							continue
						}
						if cv, ok := v.(*ssa.Const); ok {
							t := x.constVal(cv).T
							addB("const"+t.String(), func(*loopCtx) *Term { return t })
							continue
						}
						if pv, ok := preFrame.env[v]; ok {
							if pv.T != nil {
								addB("pre:"+v.Name(), func(lc *loopCtx) *Term {
									if pv, ok := lc.pre.frames[lc.frame].env[v]; ok && pv.T != nil {
										return pv.T
									}
									return pv.T
								})
							}
						} else if cl, ok := v.(*ssa.Call); ok {
							if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								a := cl.Call.Args[0]
								if pv, ok := preFrame.env[a]; ok && pv.T != nil && (pv.T.sort == "Slice" || pv.T.sort == "Str") {
									addB("len:"+a.Name(), func(lc *loopCtx) *Term {
										pv := pv
										if pv2, ok := lc.pre.frames[lc.frame].env[a]; ok && pv2.T != nil && pv2.T.sort == pv.T.sort {
											pv = pv2
										}
										if pv.T.sort == "Str" {
											return x.slen(pv.T)
										}
										return c.Sel(pv.T, 2)
									})
								}
							}
						}
					}
				}
			}
		}
	}
	ifn := func(i int, g func(v, init *Term, st *State, lc *loopCtx, n *Term) *Term) func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
		return func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
			if i >= len(vals) || vals[i].T == nil || lc.inits[i].T == nil {
				return c.True()
			}
			return g(vals[i].T, lc.inits[i].T, st, lc, n)
		}
	}
	for _, b := range bounds {
		rec.add(x, "N<="+b.key, false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
			return c.Le(n, b.get(lc))
		})
		rec.add(x, "N<=max0 "+b.key, false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
			return c.Or(c.Eq(n, c.Int(0)), c.Le(n, b.get(lc)))
		})
	}
	for i, v := range lc.vars {
		i := i
		if v.phi == nil && v.cell == 0 {
			continue
		}
		switch u := under(v.typ).(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				rec.add(x, "lin+ "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Eq(v, c.Add(init, n)) }))
				rec.add(x, "lin- "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Eq(v, c.Sub(init, n)) }))
				rec.add(x, "ge "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Le(init, v) }))
				rec.add(x, "le "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Le(v, init) }))
				rec.add(x, "ge0 "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Le(c.Int(0), v) }))
				rec.add(x, "ge-1 "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Le(c.Int(-1), v) }))
				for _, b := range bounds {
					rec.add(x, "le "+vk(i)+" "+b.key, false, "", ifn(i, func(v, init *Term, st *State, lc *loopCtx, n *Term) *Term { return c.Le(v, b.get(lc)) }))
					rec.add(x, "lt "+vk(i)+" "+b.key, false, "", ifn(i, func(v, init *Term, st *State, lc *loopCtx, n *Term) *Term { return c.Lt(v, b.get(lc)) }))
					rec.add(x, "ge "+vk(i)+" "+b.key, false, "", ifn(i, func(v, init *Term, st *State, lc *loopCtx, n *Term) *Term { return c.Le(b.get(lc), v) }))
					rec.add(x, "le1 "+vk(i)+" "+b.key, false, "", ifn(i, func(v, init *Term, st *State, lc *loopCtx, n *Term) *Term { return c.Or(c.Eq(v, init), c.Le(v, b.get(lc))) }))
				}
			} else {
				rec.add(x, "same "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Eq(v, init) }))
			}
		case *types.Slice:
			rec.add(x, "fresh "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, lc *loopCtx, n *Term) *Term {
				return c.Or(c.Eq(c.Sel(v, 3), c.Int(0)), c.Le(lc.nextE, c.Sel(v, 0)), c.Eq(c.Sel(v, 0), c.Sel(init, 0)))
			}))
			rec.add(x, "fresh0 "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, lc *loopCtx, n *Term) *Term {
				return c.Or(c.Eq(c.Sel(v, 3), c.Int(0)), c.Le(x.entryNext(), c.Sel(v, 0)))
			}))
			rec.add(x, "same "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Eq(v, init) }))
			rec.add(x, "samebase "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				return c.And(c.Eq(c.Sel(v, 0), c.Sel(init, 0)), c.Eq(c.Add(c.Sel(v, 1), c.Sel(v, 2)), c.Add(c.Sel(init, 1), c.Sel(init, 2))))
			}))
			rec.add(x, "len "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				return c.Eq(c.Sel(v, 2), c.Add(c.Sel(init, 2), n))
			}))
			rec.add(x, "lenle "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				return c.Le(c.Sel(v, 2), c.Add(c.Sel(init, 2), n))
			}))
			rec.add(x, "lenge "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				return c.Le(c.Sel(init, 2), c.Sel(v, 2))
			}))
			rec.add(x, "off "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				return c.Or(c.Eq(v, init), c.Eq(c.Sel(v, 1), c.Int(0)))
			}))
		default:
			rec.add(x, "same "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
				if v.sort != init.sort {
					return c.True()
				}
				return c.Eq(v, init)
			}))
			if sn, ok := u.(*types.Struct); ok && sn.NumFields() <= 24 {
				for k := 0; k < sn.NumFields(); k++ {
					rec.add(x, fmt.Sprintf("same.%d %s", k, vk(i)), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term {
						if v.sort != init.sort || !strings.HasPrefix(v.sort, "S_") {
							return c.True()
						}
						return c.Eq(c.Sel(v, k), c.Sel(init, k))
					}))
				}
			}
			if _, ok := u.(*types.Pointer); ok {
				rec.add(x, "nonnil "+vk(i), false, "", ifn(i, func(v, init *Term, _ *State, _ *loopCtx, n *Term) *Term { return c.Lt(c.Int(0), v) }))
			}
		}
	}
	// user candidates
	var pools []*Contract
	if x.con != nil {
		pools = append(pools, x.con)
	}
	fk := funcKey(f.fn)
	if pc := x.conFor(fk); pc != nil && pc != x.con {
		pools = append(pools, pc)
	}
	if par := f.fn.Parent(); par != nil {
		for par.Parent() != nil {
			par = par.Parent()
		}
		if pc := x.conFor(funcKey(par)); pc != nil && pc != x.con {
			pools = append(pools, pc)
		}
	}
	for pi, pc := range pools {
		for ci, cl := range pc.Invs {
			x.addUser(st, lc, f, pc, pi, ci, cl)
		}
	}
	// preserved fields of fully forgotten heap parts
	for _, k := range sortedKeys(rec.mods) {
		if !rec.mods[k].full || !strings.HasPrefix(k, "h:") {
			continue
		}
		es := elemSort(x.keySort[k])
		con, ok := c.dtOf[es]
		if !ok {
			continue
		}
		for fi := range c.dtSel[con] {
			k, fi := k, fi
			rec.add(x, fmt.Sprintf("field %s.%d", k, fi), false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
				b := c.Bound("r", "Int")
				h := x.heapGet(st, k, x.keySort[k])
				h0 := x.heapGet(lc.pre, k, x.keySort[k])
				return c.Forall([]*Term{b}, c.Imp(c.Lt(b, lc.nextE), c.Eq(c.Sel(c.Select(h, b), fi), c.Sel(c.Select(h0, b), fi))), []*Term{c.Select(h, b)})
			})
		}
	}
	// unmodified fields and elements of partially modified objects
	for _, k := range sortedKeys(rec.mods) {
		m := rec.mods[k]
		if m.full || len(m.targets) == 0 {
			continue
		}
		if strings.HasPrefix(k, "h:") {
			con, ok := c.dtOf[elemSort(x.keySort[k])]
			if !ok {
				continue
			}
			for ti, t := range m.targets {
				for fi := range c.dtSel[con] {
					rec.add(x, fmt.Sprintf("fld %s.%d.%d", k, ti, fi), false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
						h, h0 := x.heapGet(st, k, x.keySort[k]), x.heapGet(lc.pre, k, x.keySort[k])
						return c.Eq(c.Sel(c.Select(h, t), fi), c.Sel(c.Select(h0, t), fi))
					})
				}
			}
		}
		if strings.HasPrefix(k, "m:") && x.con != nil {
			for mi, cl := range x.con.Modifies {
				e := cl.E
				if e.Op != "call" || e.Args[0].Op != "id" || e.Args[0].Name != "elems" {
					continue
				}
				rec.add(x, fmt.Sprintf("elems %s.%d", k, mi), false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
					env := &Env{x: x, st: x.entry, old: x.entry, vars: x.entryEnv, fn: x.root, pol: 0, con: x.con}
					env.pkg = x.w.pkgOf(x.con.Pkg)
					sv := x.rv(x.eval(e.Args[1], env), env)
					if "m:"+memKey(under(sv.t).(*types.Slice).Elem()) != k {
						return c.True()
					}
					s := x.term(x.entry, sv.v)
					b := c.Bound("k", "Int")
					h, h0 := c.Select(x.heapGet(st, k, x.keySort[k]), c.Sel(s, 0)), c.Select(x.heapGet(x.entry, k, x.keySort[k]), c.Sel(s, 0))
					return c.Forall([]*Term{b}, c.Imp(c.Or(c.Lt(b, c.Sel(s, 1)), c.Le(c.Add(c.Sel(s, 1), c.Sel(s, 2)), b)), c.Eq(c.Select(h, b), c.Select(h0, b))), []*Term{c.Select(h, b)})
				})
			}
		}
	}
	for _, k := range sortedKeys(rec.mods) {
		if !rec.mods[k].full || strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		k := k
		rec.add(x, "frame0 "+k, false, "", func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
			b := c.Bound("r", "Int")
			h := x.heapGet(st, k, x.keySort[k])
			h0 := x.heapGet(lc.pre, k, x.keySort[k])
			return c.Forall([]*Term{b}, c.Imp(c.Lt(b, x.entryNext()), c.Eq(c.Select(h, b), c.Select(h0, b))), []*Term{c.Select(h, b)})
		})
	}
}

func (x *Exec) typeMatches(decl string, t types.Type) bool {
	switch decl {
	case "any":
		return true
	case "int":
		return basicInt(t) != nil
	case "bool":
		return x.tm.Sort(t) == "Bool"
	case "string":
		return x.tm.Sort(t) == "Str"
	case "slice":
		_, ok := under(t).(*types.Slice)
		return ok
	case "islice": // a slice of interface values
		s, ok := under(t).(*types.Slice)
		if ok {
			_, ok = under(s.Elem()).(*types.Interface)
		}
		return ok
	case "ptr":
		_, ok := under(t).(*types.Pointer)
		return ok
	case "iface":
		_, ok := under(t).(*types.Interface)
		return ok
	}
	k := typeKey(t)
	return k == decl || strings.HasSuffix(k, "/"+decl) || shortTypes(k) == decl
}

// shortTypes strips package paths from a type key.
func shortTypes(k string) string {
	var b strings.Builder
	tokn := ""
	flush := func() {
		if i := strings.LastIndex(tokn, "/"); i >= 0 {
			tokn = tokn[i+1:]
		}
		if i := strings.LastIndex(tokn, "."); i >= 0 {
			tokn = tokn[i+1:]
		}
		b.WriteString(tokn)
		tokn = ""
	}
	for _, r := range k {
		switch r {
		case '[', ']', '*', ' ', ',', '(', ')', '{', '}':
			flush()
			b.WriteRune(r)
		default:
			tokn += string(r)
		}
	}
	flush()
	return b.String()
}

// addUser instantiates a user hint for every type-correct choice of loop variables.
func (x *Exec) addUser(st *State, lc *loopCtx, f *Frame, pc *Contract, pi, ci int, cl *Clause) {
	type vref struct {
		depth int // loop index within frame, -1 = this loop
		i     int
		key   string
		typ   types.Type
	}
	var pool []vref
	for i, v := range lc.vars {
		pool = append(pool, vref{-1, i, fmt.Sprintf("%s/%d", v.name, i), v.typ})
	}
	for d, ol := range f.loops {
		for i, v := range ol.vars {
			pool = append(pool, vref{d, i, fmt.Sprintf("o%d:%s/%d", d, v.name, i), v.typ})
		}
	}
	// local variables that do not change in the loop, for hints that ask for them
	for _, n := range sortedKeys(f.names) {
		if v := f.names[n]; v.t != nil && !v.isAddr {
			pool = append(pool, vref{-2, 0, n, v.t})
		}
	}
	var rec func(vi int, cur []vref)
	count := 0
	rec = func(vi int, cur []vref) {
		if count > 60 {
			return
		}
		if vi == len(cl.Vars) {
			if len(cl.Vars) > 0 {
				own := false
				for _, r := range cur {
					if r.depth == -1 {
						own = true
					}
				}
				if !own && len(f.loops) == 0 && !strings.Contains(cl.Src, "#") {
					return
				}
			}
			count++
			ks := ""
			for _, r := range cur {
				ks += r.key + ","
			}
			bind := append([]vref{}, cur...)
			key := fmt.Sprintf("user %d.%d [%s]", pi, ci, ks)
			lc.rec.add(x, key, true, cl.Src, func(x *Exec, st *State, lc *loopCtx, vals []Val, n *Term, pol int) *Term {
				env := x.loopEnv(st, lc, pc, n, pol)
				for j, r := range bind {
					var v Val
					if r.depth == -2 {
						tv, ok := st.frames[lc.frame].names[r.key]
						if !ok {
							return x.c.True()
						}
						v = tv.v
					} else if r.depth == -1 {
						if r.i >= len(vals) {
							return x.c.True()
						}
						v = vals[r.i]
					} else {
						ol := st.frames[lc.frame].loops
						if r.depth >= len(ol) {
							return x.c.True()
						}
						o := ol[r.depth]
						lv := o.vars[r.i]
						if lv.phi != nil {
							v = st.frames[lc.frame].env[lv.phi]
						} else {
							v = st.cells[lv.cell].v
						}
					}
					env.vars[cl.Vars[j].Name] = TV{v: v, t: r.typ}
				}
				return x.evalBool(cl.E, env)
			})
			return
		}
		for _, r := range pool {
			want := cl.Vars[vi].Type
			if strings.HasPrefix(want, "any") && len(want) > 3 {
				want = want[3:]
			} else if r.depth == -2 {
				continue
			}
			if !x.typeMatches(want, r.typ) {
				continue
			}
			if r.depth == -1 && strings.Contains(r.key, "rangeindex/") && strings.Contains(cl.Src, "#") {
				continue // the hint counts iterations itself
			}
			dup := false
			for _, q := range cur {
				if q.key == r.key {
					dup = true
				}
			}
			if !dup {
				rec(vi+1, append(cur, r))
			}
		}
	}
	rec(0, nil)
}

func (x *Exec) loopEnv(st *State, lc *loopCtx, pc *Contract, n *Term, pol int) *Env {
	env := &Env{x: x, st: st, old: x.entry, pre: lc.pre, vars: map[string]TV{}, fn: x.root, pol: pol, con: pc, names: st.frames[lc.frame].names}
	env.pkg = x.w.pkgOf(pc.Pkg)
	if pc == x.con {
		for k, v := range x.entryEnv {
			env.vars[k] = v
		}
	} else {
		fr := st.frames[lc.frame]
		for fr.fn.Parent() != nil && len(st.frames) > 0 {
			break
		}
		if k, _, _ := strings.Cut(pc.Key, "#"); funcKey(fr.fn) == k {
			env.fn = fr.fn
			for i, p := range pc.Params {
				if i < len(fr.fn.Params) {
					env.vars[p] = TV{v: fr.env[fr.fn.Params[i]], t: fr.fn.Params[i].Type()}
				}
			}
		}
	}
	env.vars["#"] = TV{v: Val{T: n}, t: types.Typ[types.Int]}
	for _, in := range lc.lp.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it := st.frames[lc.frame].env[nx.Iter].It; it != nil && it.isMap {
				g := st.ghost[it.gk]
				env.vars["visited"] = TV{v: Val{T: g}, t: &rawType{g.sort}}
			}
		}
	}
	loops := st.frames[lc.frame].loops
	j := 1
	for i := len(loops) - 1; i >= 0; i-- {
		if loops[i] == lc || loops[i].lp == lc.lp {
			continue
		}
		env.vars[fmt.Sprintf("#%d", j)] = TV{v: Val{T: loops[i].n}, t: types.Typ[types.Int]}
		j++
	}
	return env
}


func sortedLoops(m map[*Loop]int) []*Loop {
	var out []*Loop
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out
}

// loopMode decides how a loop is treated: "unroll" executes it with an obligation that no
// further iteration is possible, "peel" executes some iterations and then cuts it with
// invariants, "" cuts it right away.
func (x *Exec) loopMode(fn *ssa.Function, lp *Loop) (string, int) {
	if n, ok := staticTrips(lp); ok {
		return "unroll", n
	}
	for _, con := range []*Contract{x.conOf(fn), x.con} {
		if con == nil {
			continue
		}
		for _, m := range []string{"unroll", "peel"} {
			for _, k := range []string{fmt.Sprintf("%s.%d", m, lp.idx), m} {
				if v, ok := con.Opts[k]; ok {
					n := 0
					fmt.Sscan(v, &n)
					return m, n
				}
			}
		}
	}
	return "", 0
}

func (x *Exec) conOf(fn *ssa.Function) *Contract {
	for f := fn; f != nil; f = f.Parent() {
		if c := x.conFor(funcKey(f)); c != nil {
			return c
		}
	}
	return nil
}

var tripCache = map[*Loop]int{}

// staticTrips recognises loops over constants with a straight body.
func staticTrips(lp *Loop) (int, bool) {
	if n, ok := tripCache[lp]; ok {
		return n, n >= 0
	}
	n := staticTrips1(lp)
	tripCache[lp] = n
	return n, n >= 0
}

func staticTrips1(lp *Loop) int {
	h := lp.head
	for b := range lp.body {
		in := 0
		for _, s := range b.Succs {
			if lp.body[s] {
				in++
			}
		}
		if in > 1 {
			return -1
		}
	}
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || !lp.body[h.Succs[0]] || lp.body[h.Succs[1]] {
		return -1
	}
	lim, ok := cmp.Y.(*ssa.Const)
	if !ok || lim.Value == nil || lim.Value.Kind() != constant.Int {
		return -1
	}
	off := int64(0)
	v := cmp.X
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		k, ok := bo.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return -1
		}
		off = k.Int64()
		v = bo.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return -1
	}
	var init, step int64
	haveI, haveS := false, false
	for i, e := range ph.Edges {
		if lp.body[h.Preds[i]] {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.X != ph || (bo.Op != token.ADD && bo.Op != token.SUB) {
				return -1
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return -1
			}
			s := k.Int64()
			if bo.Op == token.SUB {
				s = -s
			}
			if haveS && s != step {
				return -1
			}
			step, haveS = s, true
		} else {
			k, ok := e.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return -1
			}
			if haveI && k.Int64() != init {
				return -1
			}
			init, haveI = k.Int64(), true
		}
	}
	if !haveI || !haveS {
		return -1
	}
	for n := 0; n <= 24; n++ {
		a, l := init+off, lim.Int64()
		in := false
		switch cmp.Op {
		case token.LSS:
			in = a < l
		case token.LEQ:
			in = a <= l
		case token.GTR:
			in = a > l
		case token.GEQ:
			in = a >= l
		case token.NEQ:
			in = a != l
		default:
			return -1
		}
		if !in {
			return n
		}
		init += step
	}
	return -1
}
