package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	aCell = iota // non-escaping local
	aHeap        // object of a non-array type in the heap
	aMem         // element of a backing array
	aArr         // whole array object
	aGlob        // package-level variable
)

type pathEl struct {
	field int
	idx   *Term
	ct    types.Type // container type
}

// Addr is a structured pointer value.
type Addr struct {
	kind int
	typ  types.Type // type of the root object (aMem: element type, aArr: element type)
	n    int64      // aArr: length
	ref  *Term
	idx  *Term
	cell int
	key  string
	path []pathEl
}

func (a *Addr) sub(p pathEl) *Addr {
	b := *a
	b.path = append(append([]pathEl{}, a.path...), p)
	return &b
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
	id   *Term
}

type IterV struct {
	isMap bool
	m     *Term // map ref
	mt    *types.Map
	str   *Term
	gk    string
	dom0  *Term
}

// Val is a symbolic value.
type Val struct {
	T   *Term
	A   *Addr
	C   *Closure
	Tup []Val
	It  *IterV
}

type asList struct {
	t    *Term
	prev *asList
	n    int
}

type cell struct {
	v   Val
	typ types.Type
}

type alias struct {
	a   *Addr // address of an array-typed location
	key string
	ref *Term
	el  types.Type
}

type loopCtx struct {
	lp     *Loop
	n      *Term
	rec    *LoopRec
	hst    *heapSnap // state at header
	pre    *State    // state at loop entry
	vars   []loopVar
	inits  []Val
	frame  int
	nextE  *Term
	phiVal []Val
	else_  map[*Term]bool
}

type heapSnap struct {
	heap  map[string]*Term
	cells map[int]cell
	ghost map[string]*Term
	next  *Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]TV
	defers []deferred
	loops  []*loopCtx
	unr    map[*Loop]int
	path   string
	tsub   map[*types.TypeParam]types.Type
}

type State struct {
	as       *asList
	heap     map[string]*Term
	cells    map[int]cell
	ghost    map[string]*Term
	next     *Term
	fresh    int
	epoch    string
	closures map[*Term]*Closure
	addrs    map[*Term]*Addr
	aliases  []alias
	frames   []*Frame
	trace    []string
	lockSt   map[string]*State
	held     map[string]bool
	nocell   int
	wraps    [][2]*Term
}

func (st *State) clone() *State {
	n := *st
	n.heap = cp(st.heap)
	n.cells = cp(st.cells)
	n.ghost = cp(st.ghost)
	n.closures = cp(st.closures)
	n.addrs = cp(st.addrs)
	n.lockSt = cp(st.lockSt)
	n.held = cp(st.held)
	n.aliases = append([]alias{}, st.aliases...)
	n.trace = append([]string{}, st.trace...)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = cp(f.env)
		g.names = cp(f.names)
		g.defers = append([]deferred{}, f.defers...)
		g.loops = append([]*loopCtx{}, f.loops...)
		g.unr = cp(f.unr)
		n.frames[i] = &g
	}
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assumptions() []*Term {
	var out []*Term
	for a := st.as; a != nil; a = a.prev {
		out = append(out, a.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) assume(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	for a, i := st.as, 0; a != nil && i < 60; a, i = a.prev, i+1 {
		if a.t == t {
			return
		}
	}
	n := 0
	if st.as != nil {
		n = st.as.n
	}
	st.as = &asList{t, st.as, n + 1}
}

func (x *Exec) fr(st *State, hint, sort string) *Term {
	st.fresh++
	n := fmt.Sprintf("%s!%d", clean(hint), st.fresh)
	for {
		d, ok := x.c.decls[n]
		if !ok || d == "() "+sort {
			break
		}
		n += "_" + clean(sort)
		if len(n) > 400 {
			panic("name")
		}
	}
	return x.c.Const(n, sort)
}

// ---- heap access

func (x *Exec) heapGet(st *State, key, sort string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	n := "H" + st.epoch + "$" + clean(trunc(key, 60)) + fmt.Sprintf("$%d", x.keyID(key))
	return x.c.Const(n, sort)
}

func (x *Exec) keyID(k string) int {
	if n, ok := x.keyIDs[k]; ok {
		return n
	}
	n := len(x.keyIDs)
	x.keyIDs[k] = n
	x.keyList = append(x.keyList, k)
	return n
}

func (x *Exec) heapOf(st *State, t types.Type) (*Term, string) {
	k := "h:" + typeKey(t)
	s := arrSort(x.tm.Sort(t))
	x.keySort[k] = s
	return x.heapGet(st, k, s), k
}
func (x *Exec) memOf(st *State, elem types.Type) (*Term, string) {
	k := "m:" + memKey(elem)
	s := arrSort(arrSort(x.tm.Sort(elem)))
	x.keySort[k] = s
	return x.heapGet(st, k, s), k
}

func (x *Exec) globOf(st *State, g *ssa.Global) (*Term, string) {
	k := "g:" + g.String()
	s := x.tm.Sort(g.Type().(*types.Pointer).Elem())
	x.keySort[k] = s
	x.globs[k] = g
	return x.globTerm(st, k), k
}

// globTerm reads a package-level variable; variables only assigned by package initialisation are constants.
func (x *Exec) globTerm(st *State, k string) *Term {
	g := x.globs[k]
	if g == nil {
		return x.heapGet(st, k, x.keySort[k])
	}
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := st.heap[k]; !ok && x.w.immutable(g) {
		if c, ok := x.w.initConst[g]; ok && x.w.initN[g] == 1 {
			return x.constVal(c).T
		}
		if x.w.sentinel(g) {
			x.c.sentinels = true
			return x.c.Mk("Iface", x.c.Int(sentinelTag), x.c.Int(-1-int64(x.keyID("sentinel:"+k))))
		}
		if g2 := x.w.initAlias[g]; g2 != nil && x.w.initN[g] == 1 && x.w.immutable(g2) {
			v, _ := x.globOf(st, g2)
			return v
		}
		v := x.c.Const("G$"+clean(k), x.keySort[k])
		x.assume(st, x.tm.Fact(v, t, x.entryNext(), 3))
		if es, ok := x.w.initMap[g]; ok && x.w.initN[g] == 1 && !x.w.mapDirty[g] {
			x.initMapFact(st, under(t).(*types.Map), v, es)
		}
		if call := x.w.initCall[g]; call != nil && x.w.initN[g] == 1 {
			x.initCallFact(st, g, v, call)
		}
		return v
	}
	return x.heapGet(st, k, x.keySort[k])
}

// initMapFact: the contents of a map literal that nothing changes after package initialisation.
func (x *Exec) initMapFact(st *State, mt *types.Map, m *Term, es [][2]ssa.Value) {
	_, _, ms := x.mapOf(st, mt)
	lit := x.emptyMap(ms)
	for _, e := range es {
		k, ok1 := x.initVal(st, e[0])
		v, ok2 := x.initVal(st, e[1])
		if !ok1 || !ok2 {
			return
		}
		lit = x.mapStore(lit, k, v)
	}
	x.assume(st, x.c.Lt(x.c.Int(0), m))
	x.assume(st, x.c.Eq(x.mapVal(st, mt, m), lit))
}

// initCallFact: a variable initialised once by a call of a function under contract satisfies the contract.
func (x *Exec) initCallFact(st *State, g *ssa.Global, v *Term, call *ssa.Call) {
	f := call.Call.StaticCallee()
	con := x.w.specs.C[funcKey(f)]
	if con == nil || con.Extern || con.Inline || len(con.Requires)+len(con.Panics) > 0 || f.Signature.Results().Len() != 1 {
		return
	}
	k := "initcall:" + g.String()
	if x.initBusy[k] {
		return
	}
	x.initBusy[k] = true
	defer delete(x.initBusy, k)
	var args []Val
	for i, a := range call.Call.Args {
		t, ok := x.initVal(st, a)
		if !ok {
			t = x.c.Const(fmt.Sprintf("G$%s$arg%d", clean(g.String()), i), x.tm.Sort(a.Type()))
			x.assume(st, x.tm.Fact(t, a.Type(), x.entryNext(), 3))
		}
		args = append(args, Val{T: t})
	}
	x.contractCall(st, call, con, f.Signature, f, args, f.Signature, func(st2 *State, out []Val) {
		if st2 == st && len(out) == 1 {
			x.assume(st, x.c.Eq(v, x.term(st, out[0])))
		}
	})
}

// fnAxiom derives, for a loop-free function without effects, the axiom that an application of it equals its result.
func (x *Exec) fnAxiom(f *ssa.Function) (ax *Term) {
	if a, ok := x.fnAx[f]; ok {
		return a
	}
	x.fnAx[f] = nil
	if len(f.Blocks) == 0 || !x.w.inRepo(f) || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 || f.TypeParams().Len() > 0 {
		return nil
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return nil
			}
		}
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Call:
				cf := u.Call.StaticCallee()
				if cf == nil || intrinsics[funcKey(cf)] == nil {
					return nil
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Send, *ssa.MakeClosure, *ssa.Alloc:
				return nil
			}
		}
	}
	c := x.c
	obls, rets, paths, triv, quick, root := x.obls, x.rets, x.paths, x.trivial, x.quickN, x.root
	defer func() {
		bad := len(x.obls) != len(obls)
		x.obls, x.rets, x.paths, x.trivial, x.quickN, x.root = obls, rets, paths, triv, quick, root
		if r := recover(); r != nil || bad {
			ax = nil
		}
		x.fnAx[f] = ax
	}()
	st := x.newState()
	pre := map[*Term]bool{}
	for _, a := range st.assumptions() {
		pre[a] = true
	}
	var args []Val
	var bs, bts []*Term
	m := map[*Term]*Term{}
	for _, p := range f.Params {
		a, b := c.Fresh("fa", x.tm.Sort(p.Type())), c.Bound("fa", x.tm.Sort(p.Type()))
		x.fact(st, a, p.Type())
		args = append(args, Val{T: a})
		m[a] = b
		bs = append(bs, b)
	}
	var conj []*Term
	id := c.Const("fn$"+clean(f.String()), "Int")
	x.enter(st, f, nil, args, func(s2 *State, out []Val) {
		var hyp []*Term
		for _, a := range s2.assumptions() {
			if !pre[a] {
				hyp = append(hyp, a)
			}
		}
		app := x.applyTerm(id, 0, args, s2, x.tm.Sort(f.Signature.Results().At(0).Type()))
		if len(bts) == 0 {
			bts = append(bts, app)
		}
		conj = append(conj, c.Imp(c.And(hyp...), c.Eq(app, x.term(s2, out[0]))))
	})
	if len(conj) == 0 || len(x.obls) != len(obls) {
		return nil
	}
	body := c.Replace(c.And(conj...), m)
	if hasFresh(body, map[*Term]bool{}) {
		return nil
	}
	for i := range bts {
		bts[i] = c.Replace(bts[i], m)
	}
	return c.Forall(bs, body, bts)
}

// initArray: an array literal whose elements are constants.
func (x *Exec) initArray(st *State, a *ssa.Alloc) (*Term, bool) {
	ar, ok := under(deref(a.Type())).(*types.Array)
	if !ok {
		return nil, false
	}
	t := x.tm.Zero(deref(a.Type()))
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok || r.X != a {
				return nil, false
			}
			for _, q := range *r.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != r {
					return nil, false
				}
				v, ok := s.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				t = x.c.Store(t, x.c.Int(i.Int64()), x.term(st, x.constVal(v)))
			}
		default:
			return nil, false
		}
	}
	_ = ar
	return t, true
}

func hasFresh(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if len(t.args) == 0 && strings.Contains(t.op, "!") && len(t.fv) == 0 {
		return true
	}
	for _, a := range t.args {
		if hasFresh(a, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) initVal(st *State, v ssa.Value) (*Term, bool) {
	switch u := v.(type) {
	case *ssa.Const:
		return x.term(st, x.constVal(u)), true
	case *ssa.UnOp:
		if g, ok := u.X.(*ssa.Global); ok && x.w.immutable(g) {
			t, _ := x.globOf(st, g)
			return t, true
		}
		if a, ok := u.X.(*ssa.Alloc); ok {
			return x.initArray(st, a)
		}
	case *ssa.ChangeInterface:
		return x.initVal(st, u.X)
	case *ssa.ChangeType:
		return x.initVal(st, u.X)
	case *ssa.Function:
		id := x.c.Const("fn$"+clean(u.String()), "Int")
		x.fnFacts(st, id)
		if ax := x.fnAxiom(u); ax != nil {
			x.assume(st, ax)
		}
		return id, true
	}
	return nil, false
}

func (x *Exec) rootGet(st *State, a *Addr) *Term {
	c := x.c
	switch a.kind {
	case aCell:
		v := st.cells[a.cell].v
		return x.term(st, v)
	case aHeap:
		h, _ := x.heapOf(st, a.typ)
		return c.Select(h, a.ref)
	case aMem:
		m, _ := x.memOf(st, a.typ)
		return c.Select(c.Select(m, a.ref), a.idx)
	case aArr:
		m, _ := x.memOf(st, a.typ)
		return c.Select(m, a.ref)
	case aGlob:
		if x.globArr[a.key] != nil {
			m, _ := x.memOf(st, a.typ)
			return c.Select(m, a.ref)
		}
		return x.globTerm(st, a.key)
	}
	panic("rootGet")
}

func (x *Exec) rootSet(st *State, a *Addr, v Val) {
	c := x.c
	switch a.kind {
	case aCell:
		ce := st.cells[a.cell]
		ce.v = v
		st.cells[a.cell] = ce
	case aHeap:
		h, k := x.heapOf(st, a.typ)
		st.heap[k] = c.Store(h, a.ref, x.term(st, v))
	case aMem:
		m, k := x.memOf(st, a.typ)
		arr := c.Select(m, a.ref)
		st.heap[k] = c.Store(m, a.ref, c.Store(arr, a.idx, x.term(st, v)))
	case aArr:
		m, k := x.memOf(st, a.typ)
		st.heap[k] = c.Store(m, a.ref, x.term(st, v))
	case aGlob:
		st.heap[a.key] = x.term(st, v)
	}
}

func sameRoot(a, b *Addr) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case aCell:
		return a.cell == b.cell
	case aGlob:
		return a.key == b.key
	}
	return typeKey(a.typ) == typeKey(b.typ)
}

func (x *Exec) getPath(t *Term, path []pathEl) *Term {
	for _, p := range path {
		if p.idx != nil {
			t = x.c.Select(t, p.idx)
		} else {
			t = x.c.Sel(t, p.field)
		}
	}
	return t
}
func (x *Exec) setPath(t *Term, path []pathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.idx != nil {
		return x.c.Store(t, p.idx, x.setPath(x.c.Select(t, p.idx), path[1:], v))
	}
	return x.c.Upd(t, p.field, x.setPath(x.c.Sel(t, p.field), path[1:], v))
}

// syncAliases writes array objects that shadow an in-struct array back to their home location.
func (x *Exec) syncIn(st *State, a *Addr) {
	for _, al := range st.aliases {
		if sameRoot(al.a, a) {
			m, _ := x.memOf(st, al.el)
			cur := x.c.Select(m, al.ref)
			r := x.rootGet(st, al.a)
			x.rootSet(st, al.a, Val{T: x.setPath(r, al.a.path, cur)})
		}
	}
}
func (x *Exec) syncOut(st *State, a *Addr) {
	for _, al := range st.aliases {
		if sameRoot(al.a, a) {
			m, k := x.memOf(st, al.el)
			v := x.getPath(x.rootGet(st, al.a), al.a.path)
			st.heap[k] = x.c.Store(m, al.ref, v)
		}
	}
}

func (x *Exec) pathType(a *Addr) types.Type {
	t := a.typ
	if a.kind == aArr {
		t = types.NewArray(a.typ, a.n)
	}
	for _, p := range a.path {
		if p.idx != nil {
			t = under(t).(*types.Array).Elem()
		} else {
			t = under(t).(*types.Struct).Field(p.field).Type()
		}
	}
	return t
}

func under(t types.Type) types.Type { return t.Underlying() }

func (x *Exec) load(st *State, a *Addr) Val {
	if len(st.aliases) > 0 {
		x.syncIn(st, a)
	}
	if a.kind == aCell && len(a.path) == 0 {
		return st.cells[a.cell].v
	}
	t := x.getPath(x.rootGet(st, a), a.path)
	x.fact(st, t, x.pathType(a))
	return x.retype(st, t)
}

// retype recovers structured values from their term representation.
func (x *Exec) retype(st *State, t *Term) Val {
	if t.sort == "Int" {
		if c, ok := st.closures[t]; ok {
			return Val{T: t, C: c}
		}
		if a, ok := st.addrs[t]; ok {
			return Val{T: t, A: a}
		}
	}
	return Val{T: t}
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if len(st.aliases) > 0 {
		x.syncIn(st, a)
	}
	if len(a.path) == 0 {
		x.rootSet(st, a, v)
	} else {
		r := x.rootGet(st, a)
		x.rootSet(st, a, Val{T: x.setPath(r, a.path, x.term(st, v))})
	}
	if len(st.aliases) > 0 {
		x.syncOut(st, a)
	}
}

func (x *Exec) fact(st *State, t *Term, typ types.Type) {
	if t.num != nil || len(t.fv) > 0 {
		return
	}
	x.assume(st, x.tm.Fact(t, typ, st.next, 3))
}

// fnFacts: a declared function is not nil and differs from every other one.
func (x *Exec) fnFacts(st *State, id *Term) {
	if x.fnIdx == nil {
		x.fnIdx = map[*Term]int{}
	}
	if _, ok := x.fnIdx[id]; !ok {
		x.fnIdx[id] = len(x.fnIdx) + 1
	}
	x.assume(st, x.c.Lt(x.c.Int(0), id))
	x.assume(st, x.c.Eq(x.c.App("fn_idx", "Int", id), x.c.Int(int64(x.fnIdx[id]))))
}

// term converts a value to its term.
func (x *Exec) term(st *State, v Val) *Term {
	if v.T != nil {
		return v.T
	}
	c := x.c
	if v.A != nil {
		a := v.A
		if (a.kind == aHeap || a.kind == aArr) && len(a.path) == 0 {
			return a.ref
		}
		// interior pointer: opaque, remembered
		var k strings.Builder
		fmt.Fprintf(&k, "ptr$%d$", a.kind)
		var args []*Term
		switch a.kind {
		case aCell:
			fmt.Fprintf(&k, "c%d", a.cell)
		case aGlob:
			k.WriteString(clean(a.key))
		default:
			k.WriteString(clean(typeKey(a.typ)))
			args = append(args, a.ref)
			if a.idx != nil {
				args = append(args, a.idx)
			}
		}
		for _, p := range a.path {
			if p.idx != nil {
				k.WriteString("$i")
				args = append(args, p.idx)
			} else {
				fmt.Fprintf(&k, "$%d", p.field)
			}
		}
		t := c.App(k.String(), "Int", args...)
		x.assume(st, c.Lt(c.Int(0), t))
		st.addrs[t] = a
		return t
	}
	if v.C != nil {
		if v.C.id == nil {
			v.C.id = x.fr(st, "closure", "Int")
			x.assume(st, c.Lt(c.Int(0), v.C.id))
		}
		if _, ok := st.closures[v.C.id]; !ok && strings.HasPrefix(v.C.id.op, "fn$") {
			x.fnFacts(st, v.C.id)
		}
		st.closures[v.C.id] = v.C
		return v.C.id
	}
	panic(unsup("value without term"))
}

// addr interprets a pointer value of type *elem as an address.
func (x *Exec) addr(st *State, v Val, ptr types.Type) *Addr {
	if v.A != nil {
		return v.A
	}
	if v.T == nil {
		panic(unsup("not a pointer"))
	}
	if a, ok := st.addrs[v.T]; ok {
		return a
	}
	el := deref(ptr)
	if ar, ok := under(el).(*types.Array); ok {
		return &Addr{kind: aArr, typ: ar.Elem(), n: ar.Len(), ref: v.T}
	}
	return &Addr{kind: aHeap, typ: el, ref: v.T}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsup("deref of %s", t))
}

func (x *Exec) snap(st *State) *heapSnap {
	return &heapSnap{heap: cp(st.heap), cells: cp(st.cells), ghost: cp(st.ghost), next: st.next}
}

// newRef allocates a fresh object reference.
func (x *Exec) newRef(st *State) *Term {
	r := st.next
	st.next = x.c.Add(st.next, x.c.Int(1))
	return r
}
