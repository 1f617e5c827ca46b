package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed value in a specification.
type TV struct {
	v      Val
	t      types.Type
	isAddr bool
}

// Env is the evaluation context of a specification expression.
type Env struct {
	x     *Exec
	st    *State // heap read by the expression
	cur   *State // path the typing facts are added to (defaults to st)
	old   *State
	pre   *State
	vars  map[string]TV
	fn    *ssa.Function
	pkg   *types.Package
	con   *Contract
	pol   int
	names map[string]TV
	depth int
	targs map[string]types.Type // type arguments of the callee
	inner *bool   // set when the expression is about the time a lock was held, in a callee's postcondition
	facts *[]*Term // typing facts about terms with variables of the enclosing quantifier
}

// rawType is a specification-only type given by its SMT sort.
type rawType struct{ sort string }

func (r *rawType) Underlying() types.Type { return r }
func (r *rawType) String() string         { return "#" + r.sort }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]

func (env *Env) path() *State {
	if env.cur != nil {
		return env.cur
	}
	return env.st
}

func (env *Env) with(st *State) *Env {
	e := *env
	if e.cur == nil {
		e.cur = env.st
	}
	e.st = st
	return &e
}

// evalBool evaluates a formula at env's polarity.
func (x *Exec) evalBool(e *Expr, env *Env) *Term {
	v := x.eval(e, env)
	t := x.tvTerm(v, env)
	if t.sort != "Bool" {
		panic(unsup("formula expected: %s", exprStr(e)))
	}
	return t
}

func (x *Exec) tvTerm(v TV, env *Env) *Term {
	if v.isAddr {
		a := x.addr(env.st, v.v, v.t)
		return x.term(env.path(), x.loadAt(env, a))
	}
	return x.term(env.path(), v.v)
}

// rv turns an address-valued name into the value stored there.
func (x *Exec) rv(v TV, env *Env) TV {
	if !v.isAddr {
		return v
	}
	a := x.addr(env.st, v.v, v.t)
	return TV{v: x.loadAt(env, a), t: deref(v.t)}
}

// loadAt reads memory of env.st, adding typing facts to the current path.
func (x *Exec) loadAt(env *Env, a *Addr) Val {
	st := env.st
	if len(st.aliases) > 0 {
		x.syncIn(st, a)
	}
	if a.kind == aCell && len(a.path) == 0 {
		return st.cells[a.cell].v
	}
	t := x.getPath(x.rootGet(st, a), a.path)
	x.factAt(env, t, x.pathType(a))
	return x.retype(env.path(), t)
}

func (x *Exec) factAt(env *Env, t *Term, typ types.Type) {
	if t.num != nil || typ == nil {
		return
	}
	if len(t.fv) > 0 {
		if t.sort == "Iface" && env.facts != nil {
			*env.facts = append(*env.facts, x.tm.Fact(t, typ, env.st.next, 1))
		}
		return
	}
	f := x.tm.Fact(t, typ, env.st.next, 2)
	x.assume(env.path(), f)
}

func exprStr(e *Expr) string {
	if e == nil {
		return ""
	}
	if e.Src != "" {
		return strings.Join(strings.Fields(e.Src), " ")
	}
	switch e.Op {
	case "num":
		return e.Num.String()
	case "id":
		return e.Name
	case "str":
		return fmt.Sprintf("%q", e.Name)
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, exprStr(a))
	}
	return e.Op + e.Name + "(" + strings.Join(as, ", ") + ")"
}

func (env *Env) flip() *Env {
	e := *env
	e.pol = -env.pol
	return &e
}
func (env *Env) nopol() *Env {
	if env.pol == 0 {
		return env
	}
	e := *env
	e.pol = 0
	return &e
}

func (env *Env) bind(vs map[string]TV) *Env {
	e := *env
	e.vars = cp(env.vars)
	for k, v := range vs {
		e.vars[k] = v
	}
	return &e
}

func tt(t *Term, typ types.Type) TV { return TV{v: Val{T: t}, t: typ} }

func (x *Exec) eval(e *Expr, env *Env) TV {
	c := x.c
	switch e.Op {
	case "num":
		return tt(c.Num(e.Num), tInt)
	case "str":
		return tt(c.Str(e.Name), tStr)
	case "id":
		return x.evalID(e, env)
	case "un":
		switch e.Name {
		case "!":
			return tt(c.Not(x.evalBool(e.Args[0], env.flip())), tBool)
		case "-":
			return tt(c.Sub(c.Int(0), x.evalT(e.Args[0], env)), tInt)
		case "*":
			p := x.rv(x.eval(e.Args[0], env), env)
			a := x.addr(env.st, p.v, p.t)
			return TV{v: x.loadAt(env, a), t: deref(p.t)}
		}
	case "ite":
		cond := x.evalBool(e.Args[0], env.nopol())
		a, b := x.rv(x.eval(e.Args[1], env), env), x.rv(x.eval(e.Args[2], env), env)
		at, bt := x.coerce(a, b, env)
		t := a.t
		if t == nil || t == types.Typ[types.UntypedNil] {
			t = b.t
		}
		return tt(c.Ite(cond, at, bt), t)
	case "bin":
		return x.evalBin(e, env)
	case "forall", "exists":
		return tt(x.evalQuant(e, env), tBool)
	case "sel":
		return x.evalSel(e, env)
	case "idx":
		b := x.rv(x.eval(e.Args[0], env), env)
		return x.evalIndex(b, x.rv(x.eval(e.Args[1], env.nopol()), env), env)
	case "slice":
		b := x.rv(x.eval(e.Args[0], env), env)
		bt := x.term(env.path(), b.v)
		var lo, hi *Term = c.Int(0), nil
		if e.Args[1] != nil {
			lo = x.evalT(e.Args[1], env)
		}
		if e.Args[2] != nil {
			hi = x.evalT(e.Args[2], env)
		}
		if bt.sort == "Slice" {
			if hi == nil {
				hi = c.Sel(bt, 2)
			}
			return tt(c.Mk("Slice", c.Sel(bt, 0), c.Add(c.Sel(bt, 1), lo), c.Sub(hi, lo), c.Sub(c.Sel(bt, 3), lo)), b.t)
		}
		if bt.sort == "Str" {
			if hi == nil {
				hi = x.slen(bt)
			}
			if len(bt.fv)+len(lo.fv)+len(hi.fv) > 0 {
				return tt(c.App("ssub", "Str", bt, lo, hi), tStr)
			}
			return tt(x.substr(env.path(), bt, lo, hi), tStr)
		}
		panic(unsup("slice expression on %s", bt.sort))
	case "call":
		return x.evalCall(e, env)
	}
	panic(unsup("spec expression %s", exprStr(e)))
}

func (x *Exec) evalT(e *Expr, env *Env) *Term { return x.tvTerm(x.eval(e, env), env) }

func (x *Exec) evalID(e *Expr, env *Env) TV {
	c := x.c
	if v, ok := env.vars[e.Name]; ok {
		return v
	}
	switch e.Name {
	case "true":
		return tt(c.True(), tBool)
	case "false":
		return tt(c.False(), tBool)
	case "nil":
		return tt(c.Int(0), types.Typ[types.UntypedNil])
	}
	if env.names != nil {
		if v, ok := env.names[e.Name]; ok {
			return v
		}
	}
	if u := x.w.specs.UFs[e.Name]; u != nil && len(u.Args) == 0 {
		t := x.resolveType(u.Ret, env)
		return tt(c.App(e.Name, x.tm.Sort(t)), t)
	}
	if s, ok := x.w.specs.Ghosts[e.Name]; ok {
		t := x.resolveType(s, env)
		k := "ghost:" + e.Name
		x.keySort[k] = x.tm.Sort(t)
		return tt(x.heapGet(env.st, k, x.keySort[k]), t)
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(e.Name); o != nil {
			return x.objTV(o, env)
		}
	}
	panic(unsup("unknown name %s in specification", e.Name))
}

func (x *Exec) objTV(o types.Object, env *Env) TV {
	c := x.c
	switch u := o.(type) {
	case *types.Const:
		switch u.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(u.Val().ExactString(), 10)
			return tt(c.Num(n), u.Type())
		case constant.String:
			return tt(c.Str(constant.StringVal(u.Val())), u.Type())
		case constant.Bool:
			return tt(c.Bool(constant.BoolVal(u.Val())), u.Type())
		case constant.Float:
			if f := constant.ToInt(u.Val()); f.Kind() == constant.Int {
				n, _ := new(big.Int).SetString(f.ExactString(), 10)
				return tt(c.Num(n), u.Type())
			}
		}
	case *types.Func:
		if f := x.w.prog.FuncValue(u); f != nil {
			return TV{v: x.val(env.st, f), t: u.Type()}
		}
	case *types.Var:
		if p := x.w.prog.Package(u.Pkg()); p != nil {
			if g := p.Var(u.Name()); g != nil {
				return TV{v: x.val(env.st, g), t: types.NewPointer(u.Type()), isAddr: true}
			}
		}
	}
	panic(unsup("spec name %s is not a constant or variable", o.Name()))
}

// coerce makes the terms of two values comparable (nil, interface boxing).
func (x *Exec) coerce(a, b TV, env *Env) (*Term, *Term) {
	c := x.c
	st := env.path()
	at, bt := x.term(st, a.v), x.term(st, b.v)
	nilA, nilB := a.t == types.Typ[types.UntypedNil], b.t == types.Typ[types.UntypedNil]
	if nilA && !nilB {
		at = x.tm.ZeroSort(bt.sort)
	}
	if nilB && !nilA {
		bt = x.tm.ZeroSort(at.sort)
	}
	if at.sort == "Iface" && bt.sort != "Iface" && b.t != nil {
		bt = x.box(st, b.v, b.t)
	} else if bt.sort == "Iface" && at.sort != "Iface" && a.t != nil {
		at = x.box(st, a.v, a.t)
	}
	_ = c
	return at, bt
}

func (x *Exec) evalBin(e *Expr, env *Env) TV {
	c := x.c
	switch e.Name {
	case "&&":
		a := x.evalBool(e.Args[0], env)
		if a.isFalse() {
			return tt(a, tBool)
		}
		return tt(c.And(a, x.evalBool(e.Args[1], env)), tBool)
	case "||":
		a := x.evalBool(e.Args[0], env)
		if a.isTrue() {
			return tt(a, tBool)
		}
		return tt(c.Or(a, x.evalBool(e.Args[1], env)), tBool)
	case "==>":
		a := x.evalBool(e.Args[0], env.flip())
		if a.isFalse() {
			return tt(c.True(), tBool)
		}
		return tt(c.Imp(a, x.evalBool(e.Args[1], env)), tBool)
	case "<==>":
		a0, b0 := x.evalBool(e.Args[0], env.nopol()), x.evalBool(e.Args[1], env.nopol())
		if !a0.quan && !b0.quan {
			return tt(c.Eq(a0, b0), tBool)
		}
		l := c.Imp(x.evalBool(e.Args[0], env.flip()), x.evalBool(e.Args[1], env))
		r := c.Imp(x.evalBool(e.Args[1], env.flip()), x.evalBool(e.Args[0], env))
		return tt(c.And(l, r), tBool)
	}
	ne := env.nopol()
	a, b := x.rv(x.eval(e.Args[0], ne), ne), x.rv(x.eval(e.Args[1], ne), ne)
	switch e.Name {
	case "==", "!=":
		// comparison of a slice with nil
		var r *Term
		if a.t == types.Typ[types.UntypedNil] || b.t == types.Typ[types.UntypedNil] {
			o := a
			if a.t == types.Typ[types.UntypedNil] {
				o = b
			}
			t := x.term(env.path(), o.v)
			switch t.sort {
			case "Slice":
				r = c.Eq(c.Sel(t, 0), c.Int(0))
			case "Iface":
				r = c.Eq(c.Sel(t, 0), c.Int(0))
			default:
				r = c.Eq(t, x.tm.ZeroSort(t.sort))
			}
		} else {
			at, bt := x.coerce(a, b, ne)
			typ := a.t
			if typ == nil {
				typ = b.t
			}
			if typ != nil && at.sort != "Slice" {
				r = x.eqVals(env.path(), at, bt, typ)
			} else {
				r = c.Eq(at, bt)
			}
		}
		if e.Name == "!=" {
			r = c.Not(r)
		}
		return tt(r, tBool)
	case "in":
		if raw, ok := b.t.(*rawType); ok && strings.HasSuffix(raw.sort, " Bool)") {
			return tt(c.Select(b.v.T, x.term(env.path(), a.v)), tBool)
		}
		mt, ok := under(b.t).(*types.Map)
		if !ok {
			panic(unsup("in: not a map"))
		}
		mv := x.mapValAt(env, mt, x.term(env.path(), b.v))
		return tt(c.Select(c.Sel(mv, 0), x.term(env.path(), a.v)), tBool)
	}
	at, bt := x.term(env.path(), a.v), x.term(env.path(), b.v)
	if at.sort == "Str" {
		switch e.Name {
		case "+":
			if len(at.fv)+len(bt.fv) > 0 {
				return tt(c.App("scat", "Str", at, bt), tStr)
			}
			return tt(x.concat(env.path(), at, bt), tStr)
		case "<":
			return tt(x.specLess(env, at, bt), tBool)
		case ">":
			return tt(x.specLess(env, bt, at), tBool)
		case "<=":
			return tt(c.Not(x.specLess(env, bt, at)), tBool)
		case ">=":
			return tt(c.Not(x.specLess(env, at, bt)), tBool)
		}
	}
	if at.sort != "Int" || bt.sort != "Int" {
		panic(unsup("arithmetic on %s and %s in %s", at.sort, bt.sort, exprStr(e)))
	}
	typ := types.Type(tInt)
	switch e.Name {
	case "<":
		return tt(c.Lt(at, bt), tBool)
	case "<=":
		return tt(c.Le(at, bt), tBool)
	case ">":
		return tt(c.Lt(bt, at), tBool)
	case ">=":
		return tt(c.Le(bt, at), tBool)
	case "+":
		return tt(c.Add(at, bt), typ)
	case "-":
		return tt(c.Sub(at, bt), typ)
	case "*":
		return tt(c.Mul(at, bt), typ)
	case "/":
		return tt(c.EDiv(at, bt), typ)
	case "%":
		return tt(c.EMod(at, bt), typ)
	}
	panic(unsup("operator %s", e.Name))
}

func (x *Exec) specLess(env *Env, a, b *Term) *Term {
	if len(a.fv)+len(b.fv) > 0 {
		return x.c.Lt(x.c.App("srank", "Int", a), x.c.App("srank", "Int", b))
	}
	return x.strLess(env.path(), a, b)
}

func (x *Exec) mapValAt(env *Env, mt *types.Map, m *Term) *Term {
	if env.cur == nil || env.cur == env.st {
		return x.mapVal(env.st, mt, m)
	}
	h, _, ms := x.mapOf(env.st, mt)
	if m.num != nil && m.num.Sign() == 0 {
		return x.emptyMap(ms)
	}
	v := x.c.Select(h, m)
	c := x.c
	if len(m.fv) == 0 {
		x.assume(env.cur, c.Le(c.Int(0), c.Sel(v, 2)))
		x.assume(env.cur, c.Imp(c.Eq(m, c.Int(0)), c.Eq(v, x.emptyMap(ms))))
		x.assume(env.cur, c.Imp(c.Eq(c.Sel(v, 2), c.Int(0)), c.Eq(c.Sel(v, 0), c.ConstArr(c.Sel(v, 0).sort, c.False()))))
	}
	return v
}

func (x *Exec) evalIndex(b, i TV, env *Env) TV {
	c := x.c
	if mt, ok := under(b.t).(*types.Map); ok {
		mv := x.mapValAt(env, mt, x.term(env.path(), b.v))
		it, _ := x.coerce(i, tt(x.tm.Zero(mt.Key()), mt.Key()), env)
		t := c.Select(c.Sel(mv, 1), it)
		if len(t.fv) == 0 {
			x.assume(env.path(), c.Imp(c.Select(c.Sel(mv, 0), it), x.tm.Fact(t, mt.Elem(), env.st.next, 2)))
		}
		return TV{v: x.retype(env.path(), t), t: mt.Elem()}
	}
	idx := x.term(env.path(), i.v)
	switch u := under(b.t).(type) {
	case *types.Slice:
		s := x.term(env.path(), b.v)
		a := &Addr{kind: aMem, typ: u.Elem(), ref: c.Sel(s, 0), idx: c.Add(c.Sel(s, 1), idx)}
		return TV{v: x.loadAt(env, a), t: u.Elem()}
	case *types.Array:
		t := c.Select(x.term(env.path(), b.v), idx)
		x.factAt(env, t, u.Elem())
		return TV{v: x.retype(env.path(), t), t: u.Elem()}
	case *types.Pointer:
		ar := under(u.Elem()).(*types.Array)
		a := x.addr(env.st, b.v, b.t)
		if a.kind == aArr && len(a.path) == 0 {
			a = &Addr{kind: aMem, typ: ar.Elem(), ref: a.ref, idx: idx}
		} else {
			a = a.sub(pathEl{idx: idx})
		}
		return TV{v: x.loadAt(env, a), t: ar.Elem()}
	case *types.Basic:
		s := x.term(env.path(), b.v)
		t := c.App("sat", "Int", s, idx)
		if len(t.fv) == 0 {
			x.sat(env.path(), s, idx)
		}
		return tt(t, types.Typ[types.Uint8])
	case *rawType:
		if strings.HasPrefix(u.sort, "(Array Iface ") && idx.sort != "Iface" {
			idx = x.box(env.path(), i.v, i.t)
		}
		t := c.Select(x.term(env.path(), b.v), idx)
		if t.sort == "Bool" {
			return tt(t, tBool)
		}
		if t.sort == "Str" {
			return tt(t, tStr)
		}
		return tt(t, &rawType{t.sort})
	}
	panic(unsup("index of %s", b.t))
}

func fieldPath(t types.Type, name string) ([]int, types.Type) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(unsup("field %s of %s", name, t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}, s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if _, ok := under(s.Field(i).Type()).(*types.Struct); ok {
				if p, ft := tryField(s.Field(i).Type(), name); p != nil {
					return append([]int{i}, p...), ft
				}
			}
		}
	}
	panic(unsup("no field %s in %s", name, t))
}

func tryField(t types.Type, name string) (p []int, ft types.Type) {
	defer func() {
		if r := recover(); r != nil {
			p, ft = nil, nil
		}
	}()
	return fieldPath(t, name)
}

func (x *Exec) evalSel(e *Expr, env *Env) TV {
	c := x.c
	// package-qualified name
	if id := e.Args[0]; id.Op == "id" {
		if _, ok := env.vars[id.Name]; !ok {
			known := false
			if env.names != nil {
				_, known = env.names[id.Name]
			}
			if env.pkg != nil && env.pkg.Scope().Lookup(id.Name) != nil {
				known = true
			}
			if !known {
				if p := x.w.pkgByName(id.Name, env.pkg); p != nil {
					if o := p.Scope().Lookup(e.Name); o != nil {
						return x.objTV(o, env)
					}
				}
			}
		}
	}
	b := x.eval(e.Args[0], env)
	// field of a variable whose address is known
	if b.isAddr {
		a := x.addr(env.st, b.v, b.t)
		if _, ok := under(deref(b.t)).(*types.Struct); ok {
			path, ft := fieldPath(deref(b.t), e.Name)
			for _, i := range path {
				a = a.sub(pathEl{field: i})
			}
			return TV{v: x.loadAt(env, a), t: ft}
		}
		b = x.rv(b, env)
	}
	if raw, ok := b.t.(*rawType); ok {
		con := c.dtOf[raw.sort]
		for i, s := range c.dtSel[con] {
			if strings.HasSuffix(s.name, "."+e.Name+fmt.Sprint(i)) {
				return tt(c.Sel(b.v.T, i), &rawType{s.sort})
			}
		}
		panic(unsup("field %s of %s", e.Name, raw.sort))
	}
	if _, ok := under(b.t).(*types.Pointer); ok {
		a := x.addr(env.st, b.v, b.t)
		path, ft := fieldPath(deref(b.t), e.Name)
		for _, i := range path {
			a = a.sub(pathEl{field: i})
		}
		return TV{v: x.loadAt(env, a), t: ft}
	}
	path, ft := fieldPath(b.t, e.Name)
	t := x.term(env.path(), b.v)
	for _, i := range path {
		t = c.Sel(t, i)
	}
	x.factAt(env, t, ft)
	return TV{v: x.retype(env.path(), t), t: ft}
}

func (x *Exec) ghostSort(name string) string {
	s, ok := x.w.specs.Ghosts[name]
	if !ok {
		panic(unsup("unknown ghost variable %s", name))
	}
	return x.tm.Sort(x.resolveType(s, &Env{x: x, fn: x.root}))
}

// resolveType interprets a type written in a specification.
func (x *Exec) resolveType(s string, env *Env) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case s == "":
		return tInt
	case strings.HasPrefix(s, "typeof(") && strings.HasSuffix(s, ")"):
		return x.rv(x.eval(parseExpr(s[7:len(s)-1]), env.nopol()), env).t
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(x.resolveType(s[2:], env))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(x.resolveType(s[1:], env))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(x.resolveType(s[4:i], env), x.resolveType(s[i+1:], env))
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		n := int64(0)
		fmt.Sscan(s[1:i], &n)
		return types.NewArray(x.resolveType(s[i+1:], env), n)
	case strings.HasPrefix(s, "array "):
		return &rawType{arrSort(x.tm.Sort(x.resolveType(s[6:], env)))}
	case strings.HasPrefix(s, "array["):
		i := strings.Index(s, "]")
		return &rawType{arrSortK(x.tm.Sort(x.resolveType(s[6:i], env)), x.tm.Sort(x.resolveType(s[i+1:], env)))}
	case strings.HasPrefix(s, "set "):
		return &rawType{arrSortK(x.tm.Sort(x.resolveType(s[4:], env)), "Bool")}
	}
	switch s {
	case "int", "ref", "Int":
		return tInt
	case "Z":
		return types.Typ[types.UntypedInt]
	case "Bool", "bool":
		return tBool
	case "Str", "string":
		return tStr
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if t := env.targs[s]; t != nil {
		return t
	}
	base, args := s, ""
	if i := strings.Index(s, "["); i > 0 {
		base, args = strings.TrimSpace(s[:i]), s[i+1:len(s)-1]
	}
	// type parameters of the function in whose scope we are
	for _, f := range []*ssa.Function{env.fn, x.root} {
		if f == nil || args != "" {
			continue
		}
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			tp := typeParamsOf(o)
			for i, p := range tp {
				if p.Obj().Name() == s && i < len(f.TypeArgs()) {
					return f.TypeArgs()[i]
				}
			}
		}
		for _, p := range typeParamsOf(f) {
			if p.Obj().Name() == s {
				return p
			}
		}
	}
	var obj types.Object
	if i := strings.LastIndex(base, "."); i >= 0 {
		if p := x.w.pkgByName(base[:i], env.pkg); p != nil {
			obj = p.Scope().Lookup(base[i+1:])
		}
	} else if env.pkg != nil {
		obj = env.pkg.Scope().Lookup(base)
	}
	if tn, ok := obj.(*types.TypeName); ok {
		t := tn.Type()
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			var as []types.Type
			for _, a := range splitTop(args) {
				as = append(as, x.resolveType(a, env))
			}
			if len(as) == n.TypeParams().Len() {
				it, err := types.Instantiate(nil, n, as, false)
				if err == nil {
					return it
				}
			}
			panic(unsup("type arguments of %s", s))
		}
		return t
	}
	if len(s) == 1 && s[0] >= 'A' && s[0] <= 'Z' { // a type parameter outside a generic function
		return &rawType{func() string { n := "TP_" + s; x.c.sorts[n] = true; return n }()}
	}
	panic(unsup("unknown type %s in specification", s))
}

func typeParamsOf(f *ssa.Function) []*types.TypeParam {
	var out []*types.TypeParam
	if l := f.Signature.RecvTypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	if l := f.Signature.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}

func (x *Exec) evalCall(e *Expr, env *Env) TV {
	c := x.c
	st := env.path()
	if e.Args[0].Op == "id" {
		name := e.Args[0].Name
		args := e.Args[1:]
		one := func() *Term { return x.evalT(args[0], env.nopol()) }
		_, shadow := env.vars[name]
		if !shadow {
			switch name {
			case "len":
				v := x.rv(x.eval(args[0], env), env)
				if mt, ok := under(v.t).(*types.Map); ok {
					return tt(c.Sel(x.mapValAt(env, mt, x.term(st, v.v)), 2), tInt)
				}
				switch u := under(v.t).(type) {
				case *types.Slice:
					return tt(c.Sel(x.term(st, v.v), 2), tInt)
				case *types.Array:
					return tt(c.Int(u.Len()), tInt)
				case *types.Basic:
					t := x.term(st, v.v)
					l := x.slen(t)
					if len(l.fv) == 0 {
						x.assume(st, x.tm.Fact(t, tStr, env.st.next, 1))
					}
					return tt(l, tInt)
				}
				panic(unsup("len of %s", v.t))
			case "cap":
				return tt(c.Sel(one(), 3), tInt)
			case "ref":
				t := one()
				if t.sort == "Slice" {
					return tt(c.Sel(t, 0), tInt)
				}
				return tt(t, tInt)
			case "off":
				return tt(c.Sel(one(), 1), tInt)
			case "old":
				if env.old == nil {
					panic(unsup("old() outside a postcondition"))
				}
				e2 := env.with(env.old)
				return x.rv(x.eval(args[0], e2), e2)
			case "locked", "unlocked": // the state when the lock was taken (released) last
				if env.inner != nil {
					*env.inner = true
					return x.rv(x.eval(args[0], env), env)
				}
				n := "last"
				if name == "unlocked" {
					n = "unlocked"
				}
				ls := env.path().lockSt[n]
				if ls == nil {
					panic(unsup("%s() on a path that takes no lock", name))
				}
				e2 := env.with(ls)
				return x.rv(x.eval(args[0], e2), e2)
			case "pre":
				if env.pre == nil {
					panic(unsup("pre() outside a loop invariant"))
				}
				e2 := env.with(env.pre)
				return x.rv(x.eval(args[0], e2), e2)
			case "fresh": // allocated by this call
				t := one()
				if t.sort == "Slice" {
					t = c.Sel(t, 0)
				}
				if t.sort == "Iface" {
					t = c.Sel(t, 1)
				}
				o := env.old
				if o == nil {
					o = env.st
				}
				return tt(c.Le(o.next, t), tBool)
			case "alloc": // allocated so far
				t := one()
				if t.sort == "Slice" {
					t = c.Sel(t, 0)
				}
				if t.sort == "Iface" {
					t = c.Sel(t, 1)
				}
				if t.sort != "Int" {
					panic(unsup("alloc of %s", t.sort))
				}
				return tt(c.Lt(t, env.st.next), tBool)
			case "min":
				a, b := one(), x.evalT(args[1], env.nopol())
				return tt(c.Ite(c.Le(a, b), a, b), tInt)
			case "max":
				a, b := one(), x.evalT(args[1], env.nopol())
				return tt(c.Ite(c.Le(a, b), b, a), tInt)
			case "typeis":
				t := x.resolveType(typeText(args[1]), env)
				if v := x.rv(x.eval(args[0], env), env); v.t != nil {
					if _, ok := v.t.Underlying().(*types.Interface); !ok && x.tm.Sort(v.t) != "Iface" {
						return tt(c.Bool(typeKey(v.t) == typeKey(t)), tBool)
					}
				}
				return tt(c.Eq(c.Sel(one(), 0), c.Int(int64(x.tm.tag(t)))), tBool)
			case "unbox":
				t := x.resolveType(typeText(args[1]), env)
				tm := one()
				if len(tm.fv) > 0 && !pointerLike(t) {
					s := x.tm.Sort(t)
					return tt(c.App("unbox_"+clean(s), s, c.Sel(tm, 1)), t)
				}
				return TV{v: x.unbox(st, tm, t), t: t}
			case "val": // payload reference of an interface
				return tt(c.Sel(one(), 1), tInt)
			case "conv": // conv(e, T): reinterpret the type
				t := x.resolveType(typeText(args[1]), env)
				return tt(one(), t)
			case "same": // equality of the representation (stronger than == for arrays)
				return tt(c.mk("=", "Bool", x.evalT(args[0], env.nopol()), x.evalT(args[1], env.nopol())), tBool)
			case "iserr":
				b := x.evalT(args[1], env.nopol())
				return tt(x.isErr(st, one(), b), tBool)
			case "mem": // the whole backing array of a slice, as a raw array
				v := x.rv(x.eval(args[0], env), env)
				el := under(v.t).(*types.Slice).Elem()
				m, _ := x.memOf(env.st, el)
				t := c.Select(m, c.Sel(x.term(st, v.v), 0))
				return tt(t, &rawType{t.sort})
			case "store":
				a := one()
				i := x.rv(x.eval(args[1], env.nopol()), env)
				it := x.term(st, i.v)
				if strings.HasPrefix(a.sort, "(Array Iface ") && it.sort != "Iface" {
					it = x.box(st, i.v, i.t)
				}
				t := c.Store(a, it, x.evalT(args[2], env.nopol()))
				return tt(t, &rawType{t.sort})
			case "keys": // domain of a map as a set
				v := x.rv(x.eval(args[0], env), env)
				mv := x.mapValAt(env, under(v.t).(*types.Map), x.term(st, v.v))
				t := c.Sel(mv, 0)
				return tt(t, &rawType{t.sort})
			case "values":
				v := x.rv(x.eval(args[0], env), env)
				mv := x.mapValAt(env, under(v.t).(*types.Map), x.term(st, v.v))
				t := c.Sel(mv, 1)
				return tt(t, &rawType{t.sort})
			case "deref": // object at a reference: deref(ref, T)
				t := x.resolveType(typeText(args[1]), env)
				h, _ := x.heapOf(env.st, t)
				o := c.Select(h, one())
				return tt(o, t)
			case "pow2":
				return tt(x.pow2(st, one()), tInt)
			}
			if m := x.w.specs.Macros[name]; m != nil {
				if len(m.Params) != len(args) {
					panic(unsup("macro %s: argument count", name))
				}
				if env.depth > 40 {
					panic(unsup("macro recursion in %s", name))
				}
				vs := map[string]TV{}
				for i, p := range m.Params {
					vs[p] = x.rv(x.eval(args[i], env.nopol()), env)
				}
				e2 := *env
				e2.vars = vs
				for k, v := range env.vars { // ghost counters stay visible
					if strings.HasPrefix(k, "#") {
						e2.vars[k] = v
					}
				}
				e2.names = nil
				e2.depth++
				if m.Pkg != "" {
					e2.pkg = x.w.pkgOf(m.Pkg)
				}
				return x.eval(m.Body, &e2)
			}
			if u := x.w.specs.UFs[name]; u != nil {
				var ts []*Term
				for i, a := range args {
					v := x.rv(x.eval(a, env.nopol()), env)
					t := x.term(st, v.v)
					if i < len(u.Args) {
						want := x.tm.Sort(x.resolveType(u.Args[i], env))
						if t.sort != want && v.t == types.Typ[types.UntypedNil] {
							t = x.tm.ZeroSort(want)
						} else if want == "Iface" && t.sort != "Iface" {
							t = x.box(st, v.v, v.t)
						}
						if t.sort != want {
							panic(unsup("%s: argument %d has sort %s, want %s", name, i+1, t.sort, want))
						}
					}
					ts = append(ts, t)
				}
				if len(ts) != len(u.Args) {
					panic(unsup("%s: argument count", name))
				}
				rt := x.resolveType(u.Ret, env)
				t := c.App(name, x.tm.Sort(rt), ts...)
				x.factAt(env, t, rt)
				return tt(t, rt)
			}
		}
	}
	// application of a function value
	f := x.rv(x.eval(e.Args[0], env), env)
	sig, ok := under(f.t).(*types.Signature)
	if !ok {
		panic(unsup("call of %s in specification", exprStr(e.Args[0])))
	}
	var as []Val
	for i, a := range e.Args[1:] {
		v := x.rv(x.eval(a, env.nopol()), env)
		if i < sig.Params().Len() && x.tm.Sort(sig.Params().At(i).Type()) == "Iface" && v.t != nil && x.tm.Sort(v.t) != "Iface" {
			v.v = Val{T: x.box(st, v.v, v.t)}
		}
		as = append(as, v.v)
	}
	rt := sig.Results().At(0).Type()
	t := x.applyTerm(x.term(st, f.v), 0, as, st, x.tm.Sort(rt))
	x.factAt(env, t, rt)
	return tt(t, rt)
}

func typeText(e *Expr) string {
	switch e.Op {
	case "id":
		return e.Name
	case "str":
		return e.Name
	case "sel":
		return typeText(e.Args[0]) + "." + e.Name
	case "un":
		if e.Name == "*" {
			return "*" + typeText(e.Args[0])
		}
	case "idx":
		return typeText(e.Args[0]) + "[" + typeText(e.Args[1]) + "]"
	}
	panic(unsup("type expected: %s", exprStr(e)))
}

// evalQuant evaluates a quantifier, choosing instantiation patterns.
func (x *Exec) evalQuant(e *Expr, env *Env) *Term {
	c := x.c
	vs := map[string]TV{}
	var bvs []*Term
	var guards []*Term
	for _, d := range e.Vars {
		t := x.resolveType(d.Type, env)
		b := c.Bound(d.Name, x.tm.Sort(t))
		bvs = append(bvs, b)
		vs[d.Name] = tt(b, t)
		// every element of sort Str is a Go string, so hypotheses need no typing guard for strings
		str := b.sort == "Str" && ((env.pol > 0 && e.Op == "forall") || (env.pol < 0 && e.Op == "exists"))
		if d.Type != "int" && d.Type != "ref" && !str {
			if g := x.tm.Fact(b, t, env.st.next, 1); !g.isTrue() {
				guards = append(guards, g)
			}
		}
	}
	e2 := env.bind(vs)
	var facts []*Term
	e2.facts = &facts
	body := x.evalBool(e.Args[0], e2)
	e2.facts = nil
	if env.pol < 0 && e.Op == "forall" && len(facts) > 0 {
		body = c.Imp(c.And(facts...), body)
	}
	var trig [][]*Term
	for _, g := range e.Trig {
		var ts []*Term
		for _, t := range g {
			ts = append(ts, x.evalT(t, e2.nopol()))
		}
		trig = append(trig, ts)
	}
	if len(guards) > 0 {
		if e.Op == "forall" {
			body = c.Imp(c.And(guards...), body)
		} else {
			body = c.And(append(guards, body)...)
		}
	}
	hyp := (env.pol > 0 && e.Op == "forall") || (env.pol < 0 && e.Op == "exists") || env.pol == 0
	if hyp && len(trig) > 0 {
		// an arithmetic index in a pattern never matches: move the offset into the body
		var out []*Term
		changed := false
		for _, g := range trig {
			gb, gs, vs := body, append([]*Term(nil), g...), append([]*Term(nil), bvs...)
			for n, b := range vs {
				if b.sort != "Int" {
					continue
				}
				off := x.patOffset(b, gs)
				if off == nil || (off.num != nil && off.num.Sign() == 0) {
					continue
				}
				kv := c.Bound("k", "Int")
				sub := map[string]*Term{b.op: c.Sub(kv, off)}
				gb = c.Subst(gb, sub)
				for i := range gs {
					gs[i] = c.Subst(gs[i], sub)
				}
				vs[n] = kv
				changed = true
			}
			for i, t := range gs {
				gs[i] = x.namePat(env, t)
				changed = changed || gs[i] != t
			}
			out = append(out, c.Quant(e.Op, vs, gb, gs))
		}
		if changed {
			if e.Op == "forall" {
				return c.And(out...)
			}
			return c.Or(out...)
		}
	}
	if len(trig) > 0 || !hyp {
		return c.Quant(e.Op, bvs, body, trig...)
	}
	if len(bvs) == 1 && bvs[0].sort == "Int" {
		if vers := x.reindex(env, bvs[0], body); len(vers) > 0 {
			var out []*Term
			for _, v := range vers {
				out = append(out, c.Quant(e.Op, []*Term{v.k}, v.body, []*Term{v.pat}))
			}
			if e.Op == "forall" {
				return c.And(out...)
			}
			return c.Or(out...)
		}
	}
	if len(bvs) == 2 && bvs[0].sort == "Int" && bvs[1].sort == "Int" {
		// reindex both variables with respect to the same kind of access
		v1 := x.reindex(env, bvs[0], body)
		if len(v1) > 0 {
			var out []*Term
			for _, v := range v1 {
				for _, u := range x.reindex(env, bvs[1], v.body) {
					out = append(out, c.Quant(e.Op, []*Term{v.k, u.k}, u.body, []*Term{v.pat, u.pat}))
					if len(out) >= 6 {
						break
					}
				}
			}
			if len(out) > 0 {
				if e.Op == "forall" {
					return c.And(out...)
				}
				return c.Or(out...)
			}
		}
	}
	return c.Quant(e.Op, bvs, body, x.autoTrig(bvs, body)...)
}

type version struct {
	k, pat, body *Term
}

// patOffset returns the constant part of the index of the first access select(A, off+i) within the pattern terms.
func (x *Exec) patOffset(i *Term, ts []*Term) *Term {
	c := x.c
	var off *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if off != nil || seen[t] || !t.fv[i.op] {
			return
		}
		seen[t] = true
		if (t.op == "select" || t.op == "sat") && !t.args[0].fv[i.op] && t.args[1].fv[i.op] {
			if o := c.Sub(t.args[1], i); len(o.fv) == 0 {
				off = o
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return off
}

// namePat gives a name to the array of a pattern select(A, i) when A is not a plain symbol.
func (x *Exec) namePat(env *Env, t *Term) *Term {
	if t.op != "select" || len(t.args[0].fv) > 0 {
		return t
	}
	arr := t.args[0]
	if arr.op != "store" && arr.op != "ite" && arr.op != "constarr" {
		return t
	}
	return x.c.mk("select", elemSort(arr.sort), x.nameArr(env.path(), arr), t.args[1])
}

// nameArr names an array term; the elements of the array below a store are related to those of the named array, as
// solvers do not propagate accesses upwards and so would not match patterns on it.
func (x *Exec) nameArr(st *State, arr *Term) *Term {
	c := x.c
	n := c.Const(fmt.Sprintf("arr$%d", arr.id), arr.sort)
	x.assume(st, c.mk("=", "Bool", n, arr))
	if arr.op == "store" {
		base := arr.args[0]
		if base.op == "store" {
			base = x.nameArr(st, base)
		}
		k := c.Bound("k", arr.args[1].sort)
		es := elemSort(arr.sort)
		body := c.Or(c.mk("=", "Bool", k, arr.args[1]), c.mk("=", "Bool", c.mk("select", es, n, k), c.mk("select", es, base, k)))
		if base.op != "ite" && base.op != "constarr" {
			x.assume(st, c.Forall([]*Term{k}, body, []*Term{c.mk("select", es, base, k)}))
		}
		x.assume(st, c.mk("=", "Bool", c.mk("select", es, n, arr.args[1]), arr.args[2]))
	}
	return n
}

// reindex finds accesses select(A, off+i) in body and rewrites the body in terms of the absolute index.
func (x *Exec) reindex(env *Env, i *Term, body *Term) []version { return x.reindexOn(env, i, body, body) }

// reindexOn takes the array accesses from scan.
func (x *Exec) reindexOn(env *Env, i *Term, scan, body *Term) []version {
	c := x.c
	type acc struct{ arr, off *Term; uf bool; t *Term }
	var accs []acc
	seen := map[*Term]bool{}
	hasBV := func(t *Term) bool { return len(t.fv) > 0 }
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.fv[i.op] {
			return
		}
		seen[t] = true
		if (t.op == "select" || t.op == "sat") && !hasBV(t.args[0]) && t.args[1].fv[i.op] {
			// index must be off + i with off free of bound variables
			off := c.Sub(t.args[1], i)
			if !off.fv[i.op] && len(off.fv) == 0 {
				accs = append(accs, acc{t.args[0], off, t.op == "sat", t})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(scan)
	// patterns on array terms that are not plain symbols get a name
	var out []version
	dup := map[string]bool{}
	for _, a := range accs {
		k := fmt.Sprintf("%d/%d", a.arr.id, a.off.id)
		if dup[k] {
			continue
		}
		dup[k] = true
		if len(out) >= 4 {
			break
		}
		arr := a.arr
		if !a.uf && (arr.op == "store" || arr.op == "ite" || arr.op == "constarr") {
			n := c.Const(fmt.Sprintf("arr$%d", arr.id), arr.sort)
			x.assume(env.path(), c.mk("=", "Bool", n, arr))
			arr = n
		}
		if a.off.num != nil && a.off.num.Sign() == 0 {
			var pat *Term
			if a.uf {
				pat = c.mk("sat", "Int", arr, i)
			} else {
				pat = c.mk("select", elemSort(arr.sort), arr, i)
			}
			out = append(out, version{i, pat, body})
			continue
		}
		kv := c.Bound("k", "Int")
		nb := c.Subst(body, map[string]*Term{i.op: c.Sub(kv, a.off)})
		var pat *Term
		if a.uf {
			pat = c.mk("sat", "Int", arr, kv)
		} else {
			pat = c.mk("select", elemSort(arr.sort), arr, kv)
		}
		out = append(out, version{kv, pat, nb})
	}
	return out
}

// autoTrig picks patterns among uninterpreted applications over the bound variables.
func (x *Exec) autoTrig(bvs []*Term, body *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	bad := map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "<=": true, "+": true, "*": true, "div": true, "mod": true, "forall": true, "exists": true, "!trig": true}
	isBV := map[string]bool{}
	for _, b := range bvs {
		isBV[b.op] = true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.fv) == 0 {
			return
		}
		seen[t] = true
		if !bad[t.op] && len(t.args) > 0 {
			ok := true
			for v := range t.fv {
				if !isBV[v] {
					ok = false
				}
			}
			// arguments free of interpreted arithmetic over bound variables
			var arith func(u *Term) bool
			arith = func(u *Term) bool {
				if len(u.fv) == 0 {
					return false
				}
				if bad[u.op] {
					return true
				}
				for _, a := range u.args {
					if arith(a) {
						return true
					}
				}
				return false
			}
			for _, a := range t.args {
				if arith(a) {
					ok = false
				}
			}
			if ok {
				cands = append(cands, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var full [][]*Term
	for _, t := range cands {
		n := 0
		for _, b := range bvs {
			if t.fv[b.op] {
				n++
			}
		}
		if n == len(bvs) {
			full = append(full, []*Term{t})
		}
	}
	if len(full) > 0 {
		sort.Slice(full, func(i, j int) bool { return full[i][0].size < full[j][0].size })
		if len(full) > 4 {
			full = full[:4]
		}
		return full
	}
	// a joint pattern
	var g []*Term
	cover := map[string]bool{}
	for _, t := range cands {
		add := false
		for _, b := range bvs {
			if t.fv[b.op] && !cover[b.op] {
				add = true
			}
		}
		if add {
			g = append(g, t)
			for v := range t.fv {
				cover[v] = true
			}
		}
	}
	if len(cover) == len(bvs) && len(g) > 0 {
		return [][]*Term{g}
	}
	return nil
}
