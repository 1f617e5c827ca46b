package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an interned SMT term.
type Term struct {
	id   int
	op   string  // symbol, function name, or special: "#int", "forall", "exists"
	args []*Term // for quantifiers: args[0] = body, args[1..] = triggers
	sort string
	num  *big.Int
	vars []*Term // bound variables of a quantifier
	fv   map[string]bool
	quan bool // contains a quantifier
	size int
}

// Ctx owns interning, declarations and datatypes.
type Ctx struct {
	tab    map[string]*Term
	n      int
	fresh  int
	decls  map[string]string   // symbol -> "(args) sort" for declare-fun
	dts    []string            // datatype declarations in order
	dtSel  map[string][]dtSel  // constructor -> selectors
	dtOf   map[string]string   // sort -> constructor
	selCon map[string][2]any   // selector -> constructor, index
	sorts  map[string]bool     // uninterpreted sorts
	defs   map[string]*FunDef  // defined functions: axioms emitted if used
	strs   map[string]*Term
	strVal map[*Term]string
	sentinels bool
}

type dtSel struct{ name, sort string }

// FunDef attaches axioms to a symbol; they are emitted if the symbol occurs.
type FunDef struct {
	axioms []*Term
	deps   []string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, decls: map[string]string{}, dtSel: map[string][]dtSel{}, dtOf: map[string]string{},
		selCon: map[string][2]any{}, sorts: map[string]bool{}, defs: map[string]*FunDef{}, strs: map[string]*Term{}, strVal: map[*Term]string{}}
	c.sorts["Str"] = true
	c.sorts["Flt"] = true
	c.Datatype("Slice", "mk_slice", []dtSel{{"s_ref", "Int"}, {"s_off", "Int"}, {"s_len", "Int"}, {"s_cap", "Int"}})
	c.Datatype("Iface", "mk_iface", []dtSel{{"i_tag", "Int"}, {"i_val", "Int"}})
	c.decls["slen"] = "(Str) Int"
	c.decls["sat"] = "(Str Int) Int"
	c.decls["pow2"] = "(Int) Int"
	return c
}

func (c *Ctx) Datatype(sort, con string, sels []dtSel) {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", sort, con)
	for i, s := range sels {
		fmt.Fprintf(&b, " (%s %s)", s.name, s.sort)
		c.selCon[s.name] = [2]any{con, i}
	}
	b.WriteString("))))")
	if len(sels) == 0 {
		b.Reset()
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s))))", sort, con)
	}
	c.dts = append(c.dts, b.String())
	c.dtSel[con] = sels
	c.dtOf[sort] = con
}

func (c *Ctx) mk(op, sort string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, args: args, sort: sort, size: 1}
	for _, a := range args {
		if a.quan {
			t.quan = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		for v := range a.fv {
			if t.fv == nil {
				t.fv = map[string]bool{}
			}
			t.fv[v] = true
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Const(name, sort string) *Term {
	c.decls[name] = "() " + sort
	return c.mk(name, sort)
}

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '$' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) Fresh(hint, sort string) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", clean(hint), c.fresh), sort)
}

// BV makes a bound variable.
func (c *Ctx) Bound(hint, sort string) *Term {
	c.fresh++
	n := fmt.Sprintf("%s?%d", clean(hint), c.fresh)
	t := c.mk(n, sort)
	t.fv = map[string]bool{n: true}
	return t
}

func (c *Ctx) Num(n *big.Int) *Term {
	k := "#" + n.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: "#int", sort: "Int", num: new(big.Int).Set(n), size: 1}
	c.tab[k] = t
	return t
}
func (c *Ctx) Int(n int64) *Term { return c.Num(big.NewInt(n)) }
func (c *Ctx) True() *Term       { return c.mk("true", "Bool") }
func (c *Ctx) False() *Term      { return c.mk("false", "Bool") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return a.args[0]
	}
	return c.mk("not", "Bool", a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() || seen[t.id] {
			return true
		}
		if t.isFalse() {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False()
		}
	}
	if len(out) == 0 {
		return c.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "Bool", out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() || seen[a.id] {
			continue
		}
		if a.isTrue() || seen[c.Not(a).id] {
			return c.True()
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return c.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "Bool", out...)
}
func (c *Ctx) Imp(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", "Bool", a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(unsup("Eq: sort mismatch %s (%s) vs %s (%s)", a.op, a.sort, b.op, b.sort))
	}
	if a.num != nil && b.num != nil {
		return c.Bool(a.num.Cmp(b.num) == 0)
	}
	if a.sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if _, ok := c.strVal[a]; ok {
		if _, ok := c.strVal[b]; ok {
			return c.False()
		}
	}
	if a.sort == "Int" {
		xa, ka := c.split(a)
		xb, kb := c.split(b)
		if xa == xb {
			return c.Bool(ka.Cmp(kb) == 0)
		}
	}
	if con, ok := c.dtOf[a.sort]; ok && a.op == con && b.op == con {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	// push equality with a literal through ite with literal branches
	if b.num != nil && a.op == "ite" && a.args[1].num != nil && a.args[2].num != nil {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.num != nil && b.op == "ite" && b.args[1].num != nil && b.args[2].num != nil {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", a, b)
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Ite(a, x, y *Term) *Term {
	if a.isTrue() || x == y {
		return x
	}
	if a.isFalse() {
		return y
	}
	if x.sort == "Bool" {
		if x.isTrue() && y.isFalse() {
			return a
		}
		if x.isFalse() && y.isTrue() {
			return c.Not(a)
		}
		if x.isTrue() {
			return c.Or(a, y)
		}
		if y.isFalse() {
			return c.And(a, x)
		}
		if x.isFalse() {
			return c.And(c.Not(a), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(a), x)
		}
	}
	return c.mk("ite", x.sort, a, x, y)
}

// split decomposes t as base + constant (base nil for a literal).
func (c *Ctx) split(t *Term) (*Term, *big.Int) {
	if t.num != nil {
		return nil, t.num
	}
	if t.op == "+" && t.args[len(t.args)-1].num != nil {
		if len(t.args) == 2 {
			return t.args[0], t.args[1].num
		}
		return c.mk("+", "Int", t.args[:len(t.args)-1]...), t.args[len(t.args)-1].num
	}
	return t, new(big.Int)
}

// linear normal form
func (c *Ctx) lin(t *Term, k *big.Int, m map[*Term]*big.Int, cst *big.Int) {
	switch {
	case t.num != nil:
		cst.Add(cst, new(big.Int).Mul(k, t.num))
	case t.op == "+":
		for _, a := range t.args {
			c.lin(a, k, m, cst)
		}
	case t.op == "*" && t.args[0].num != nil:
		c.lin(t.args[1], new(big.Int).Mul(k, t.args[0].num), m, cst)
	default:
		if v, ok := m[t]; ok {
			m[t] = new(big.Int).Add(v, k)
		} else {
			m[t] = new(big.Int).Set(k)
		}
	}
}

func (c *Ctx) fromLin(m map[*Term]*big.Int, cst *big.Int) *Term {
	var ks []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range ks {
		if m[t].Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, c.mk("*", "Int", c.Num(m[t]), t))
		}
	}
	if cst.Sign() != 0 || len(args) == 0 {
		args = append(args, c.Num(cst))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.mk("+", "Int", args...)
}

func (c *Ctx) Add(a, b *Term) *Term {
	m, k := map[*Term]*big.Int{}, new(big.Int)
	c.lin(a, big.NewInt(1), m, k)
	c.lin(b, big.NewInt(1), m, k)
	return c.fromLin(m, k)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	m, k := map[*Term]*big.Int{}, new(big.Int)
	c.lin(a, big.NewInt(1), m, k)
	c.lin(b, big.NewInt(-1), m, k)
	return c.fromLin(m, k)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.num != nil {
		a, b = b, a
	}
	if a.num != nil {
		m, k := map[*Term]*big.Int{}, new(big.Int)
		c.lin(b, a.num, m, k)
		return c.fromLin(m, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", "Int", a, b)
}

// EDiv, EMod are SMT (Euclidean) div and mod.
func (c *Ctx) EDiv(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return c.Num(q)
	}
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk("div", "Int", a, b)
}
func (c *Ctx) EMod(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return c.Num(m)
	}
	return c.mk("mod", "Int", a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	xa, ka := c.split(a)
	xb, kb := c.split(b)
	if xa == xb {
		return c.Bool(ka.Cmp(kb) <= 0)
	}
	return c.mk("<=", "Bool", a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			e := c.Eq(a.args[1], i)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return c.mk("select", elemSort(a.sort), a, i)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk("store", a.sort, a, i, v)
}
func (c *Ctx) ConstArr(sort string, v *Term) *Term { return c.mk("constarr", sort, v) }

func arrSort(e string) string { return "(Array Int " + e + ")" }
func arrSortK(k, e string) string { return "(Array " + k + " " + e + ")" }
func elemSort(s string) string {
	// "(Array K E)"
	if !strings.HasPrefix(s, "(Array ") {
		panic(unsup("not an array sort: %s", s))
	}
	body := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[i+1:]
			}
		}
	}
	panic("bad sort " + s)
}

// Mk builds a datatype value, Sel projects.
func (c *Ctx) Mk(sort string, args ...*Term) *Term {
	con := c.dtOf[sort]
	if con == "" {
		panic(unsup("no datatype for %s", sort))
	}
	// eta: mk(sel0(x), sel1(x), ...) = x
	if len(args) > 0 {
		var x *Term
		ok := true
		for i, a := range args {
			if sc, is := c.selCon[a.op]; is && sc[0] == con && sc[1] == i && len(a.args) == 1 {
				if x == nil {
					x = a.args[0]
				} else if x != a.args[0] {
					ok = false
				}
			} else {
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok && x != nil {
			return x
		}
	}
	return c.mk(con, sort, args...)
}
func (c *Ctx) Sel(t *Term, i int) *Term {
	con := c.dtOf[t.sort]
	if con == "" {
		panic(unsup("projection of non-datatype sort %s (%s)", t.sort, t.op))
	}
	if t.op == con {
		return t.args[i]
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Sel(t.args[1], i), c.Sel(t.args[2], i))
	}
	s := c.dtSel[con][i]
	return c.mk(s.name, s.sort, t)
}
func (c *Ctx) Upd(t *Term, i int, v *Term) *Term {
	con := c.dtOf[t.sort]
	n := len(c.dtSel[con])
	args := make([]*Term, n)
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Sel(t, j)
		}
	}
	return c.Mk(t.sort, args...)
}

func (c *Ctx) App(f, sort string, args ...*Term) *Term {
	if _, ok := c.decls[f]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.sort)
		}
		c.decls[f] = "(" + strings.Join(ss, " ") + ") " + sort
	}
	return c.mk(f, sort, args...)
}

func (c *Ctx) Quant(q string, vars []*Term, body *Term, trig ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := false
	for _, v := range vars {
		if body.fv[v.op] {
			used = true
		}
	}
	if !used {
		return body
	}
	var b strings.Builder
	b.WriteString(q)
	for _, v := range vars {
		fmt.Fprintf(&b, "|%d", v.id)
	}
	fmt.Fprintf(&b, ":%d", body.id)
	args := []*Term{body}
	for _, g := range trig {
		b.WriteString("{")
		ok := false
		for _, t := range g {
			if len(t.fv) > 0 {
				ok = true
			}
		}
		if !ok {
			continue
		}
		p := c.mk("!trig", "Bool", g...)
		args = append(args, p)
		fmt.Fprintf(&b, "%d", p.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: q, args: args, sort: "Bool", vars: vars, quan: true, size: body.size + 1}
	t.fv = map[string]bool{}
	for v := range body.fv {
		t.fv[v] = true
	}
	for _, v := range vars {
		delete(t.fv, v.op)
	}
	c.tab[k] = t
	return t
}
func (c *Ctx) Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return c.Quant("forall", vars, body, trig...)
}

// Subst replaces bound variables (by symbol) in t.
func (c *Ctx) Subst(t *Term, m map[string]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		hit := false
		for v := range t.fv {
			if _, ok := m[v]; ok {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.args) == 0 {
			r = m[t.op]
		} else if t.op == "forall" || t.op == "exists" {
			var tr [][]*Term
			for _, p := range t.args[1:] {
				var g []*Term
				for _, x := range p.args {
					g = append(g, rec(x))
				}
				tr = append(tr, g)
			}
			r = c.Quant(t.op, t.vars, rec(t.args[0]), tr...)
		} else {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a)
			}
			r = c.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Replace substitutes whole subterms.
func (c *Ctx) Replace(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			var tr [][]*Term
			for _, p := range t.args[1:] {
				var g []*Term
				for _, x := range p.args {
					g = append(g, rec(x))
				}
				tr = append(tr, g)
			}
			r = c.Quant(t.op, t.vars, rec(t.args[0]), tr...)
		} else {
			ch := false
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			r = t
			if ch {
				r = c.rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "not":
		return c.Not(as[0])
	case "=>":
		return c.Imp(as[0], as[1])
	case "=":
		return c.Eq(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = c.Add(r, a)
		}
		return r
	case "*":
		return c.Mul(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	}
	if sc, ok := c.selCon[t.op]; ok && len(as) == 1 {
		return c.Sel(as[0], sc[1].(int))
	}
	return c.mk(t.op, t.sort, as...)
}

// ---- strings

func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	t := c.Const(fmt.Sprintf("str$%d$%s", len(c.strs), clean(trunc(s, 12))), "Str")
	c.strs[s] = t
	c.strVal[t] = s
	var ax []*Term
	ax = append(ax, c.Eq(c.App("slen", "Int", t), c.Int(int64(len(s)))))
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			ax = append(ax, c.Eq(c.App("sat", "Int", t, c.Int(int64(i))), c.Int(int64(s[i]))))
		}
	}
	c.defs[t.op] = &FunDef{axioms: ax}
	return t
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---- printing

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func sym(s string) string {
	if strings.ContainsAny(s, "?$") {
		return "|" + s + "|"
	}
	return s
}

// Script renders assumptions and goal as an SMT-LIB script that is unsat iff the goal follows.
func (c *Ctx) Script(as []*Term, goal *Term, qf bool) string {
	return c.script(as, goal, qf, nil)
}

// BatchScript renders one check per goal with push/pop.
func (c *Ctx) BatchScript(as []*Term, goals []*Term) string {
	return c.script(as, nil, false, goals)
}

func (c *Ctx) script(as []*Term, goal *Term, qf bool, batch []*Term) string {
	var all []*Term
	for _, a := range as {
		if qf && a.quan {
			continue
		}
		all = append(all, a)
	}
	if goal != nil {
		all = append(all, c.Not(goal))
	}
	var neg []*Term
	for _, g := range batch {
		neg = append(neg, c.Not(g))
	}
	// collect symbols, pull in axioms
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	var strsUsed []*Term
	var queue []*Term
	queue = append(queue, all...)
	queue = append(queue, neg...)
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, v := range t.vars {
			seen[v] = true
		}
		if t.op != "#int" && t.op != "forall" && t.op != "exists" {
			if !syms[t.op] {
				syms[t.op] = true
				if _, ok := c.strVal[t]; ok {
					strsUsed = append(strsUsed, t)
				}
				if d, ok := c.defs[t.op]; ok {
					for _, a := range d.axioms {
						if qf && a.quan {
							continue
						}
						queue = append(queue, a)
						all = append(all, a)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		walk(t)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	usedSorts := map[string]bool{}
	for s := range c.sorts {
		usedSorts[s] = true
	}
	var ss []string
	for s := range usedSorts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, d := range c.dts {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	var ds []string
	for s := range syms {
		if d, ok := c.decls[s]; ok {
			ds = append(ds, fmt.Sprintf("(declare-fun %s %s)\n", sym(s), d))
		}
	}
	sort.Strings(ds)
	for _, d := range ds {
		b.WriteString(d)
	}
	if len(strsUsed) > 1 {
		b.WriteString("(assert (distinct")
		for _, t := range strsUsed {
			b.WriteString(" " + sym(t.op))
		}
		b.WriteString("))\n")
	}
	// reference counts for sharing
	refs := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, a := range all {
		count(a)
	}
	for _, a := range neg {
		count(a)
	}
	named := map[*Term]string{}
	nn := 0
	var pr func(t *Term, w *strings.Builder)
	var define func(t *Term)
	visited := map[*Term]bool{}
	define = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.args {
			define(a)
		}
		if refs[t] > 1 && len(t.args) > 0 && len(t.fv) == 0 && t.op != "!trig" && t.size > 3 {
			var w strings.Builder
			pr(t, &w)
			nn++
			n := fmt.Sprintf("d!%d", nn)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, w.String())
			named[t] = n
		}
	}
	pr = func(t *Term, w *strings.Builder) {
		if n, ok := named[t]; ok {
			w.WriteString(n)
			return
		}
		switch t.op {
		case "#int":
			w.WriteString(numStr(t.num))
			return
		case "forall", "exists":
			w.WriteString("(" + t.op + " (")
			for _, v := range t.vars {
				fmt.Fprintf(w, "(%s %s)", sym(v.op), v.sort)
			}
			w.WriteString(") ")
			var pats []*Term
			for _, g := range t.args[1:] {
				if plainPattern(g) {
					pats = append(pats, g)
				}
			}
			if len(pats) > 0 {
				w.WriteString("(! ")
			}
			pr(t.args[0], w)
			for _, g := range pats {
				w.WriteString(" :pattern (")
				for i, x := range g.args {
					if i > 0 {
						w.WriteByte(' ')
					}
					pr(x, w)
				}
				w.WriteString(")")
			}
			if len(pats) > 0 {
				w.WriteString(")")
			}
			w.WriteString(")")
			return
		case "constarr":
			fmt.Fprintf(w, "((as const %s) ", t.sort)
			pr(t.args[0], w)
			w.WriteString(")")
			return
		}
		if len(t.args) == 0 {
			w.WriteString(sym(t.op))
			return
		}
		w.WriteByte('(')
		w.WriteString(sym(t.op))
		for _, a := range t.args {
			w.WriteByte(' ')
			pr(a, w)
		}
		w.WriteByte(')')
	}
	for _, a := range all {
		define(a)
		var w strings.Builder
		pr(a, &w)
		fmt.Fprintf(&b, "(assert %s)\n", w.String())
	}
	if batch == nil {
		b.WriteString("(check-sat)\n")
		return b.String()
	}
	for _, a := range neg {
		define(a)
	}
	for _, a := range neg {
		var w strings.Builder
		pr(a, &w)
		fmt.Fprintf(&b, "(push)\n(assert %s)\n(check-sat)\n(pop)\n", w.String())
	}
	return b.String()
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	var w strings.Builder
	var pr func(t *Term, d int)
	pr = func(t *Term, d int) {
		if w.Len() > 2000 {
			w.WriteString("…")
			return
		}
		if t.num != nil {
			w.WriteString(numStr(t.num))
			return
		}
		if len(t.args) == 0 {
			w.WriteString(t.op)
			return
		}
		w.WriteString("(" + t.op)
		for _, v := range t.vars {
			w.WriteString(" " + v.op)
		}
		for _, a := range t.args {
			if a.op == "!trig" {
				continue
			}
			w.WriteByte(' ')
			pr(a, d+1)
		}
		w.WriteByte(')')
	}
	pr(t, 0)
	return w.String()
}

type Unsup struct{ msg string }

func (u Unsup) Error() string                 { return u.msg }
func unsup(f string, a ...any) Unsup          { return Unsup{fmt.Sprintf(f, a...)} }

// plainPattern: solvers refuse connectives in patterns.
func plainPattern(t *Term) bool {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "<=", "forall", "exists":
			return false
		}
		for _, a := range t.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}
