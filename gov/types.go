package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

const modPath = "github.com/solarisdb/solaris"

// TypeMap maps Go types to SMT sorts.
type TypeMap struct {
	c      *Ctx
	byKey  map[string]string // struct type key -> sort
	st     map[string]*types.Struct
	busy   map[string]bool
	tags   map[string]int
	tagTyp map[int]types.Type
	nst    int // struct sorts named so far
}

func NewTypeMap(c *Ctx) *TypeMap {
	return &TypeMap{c: c, byKey: map[string]string{}, st: map[string]*types.Struct{}, busy: map[string]bool{}, tags: map[string]int{}, tagTyp: map[int]types.Type{}}
}

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return b.Name()
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	s = strings.ReplaceAll(s, "[]byte", "[]uint8")
	return s
}

// memKey identifies the memory of elements of type t.
func memKey(t types.Type) string { return typeKey(t) }

func (m *TypeMap) tag(t types.Type) int {
	k := typeKey(t)
	if n, ok := m.tags[k]; ok {
		return n
	}
	n := len(m.tags) + 1
	m.tags[k] = n
	m.tagTyp[n] = t
	return n
}

func opaqueStruct(n *types.Named, s *types.Struct) bool {
	if n.Obj().Pkg() == nil {
		return true
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, modPath) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	return s.NumFields() > 0
}

func (m *TypeMap) Sort(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.TypeParam:
		s := "TP_" + clean(u.Obj().Name())
		m.c.sorts[s] = true
		return s
	case *types.Basic:
		i := u.Info()
		switch {
		case u.Kind() == types.UntypedNil:
			return "Int"
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsString != 0:
			return "Str"
		case i&types.IsFloat != 0:
			return "Flt"
		default:
			return "Int"
		}
	case *types.Named:
		if s, ok := u.Underlying().(*types.Struct); ok {
			return m.structSort(typeKey(u), s, opaqueStruct(u, s))
		}
		return m.Sort(u.Underlying())
	case *types.Struct:
		return m.structSort(typeKey(u), u, false)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort(m.Sort(u.Elem()))
	case *types.Interface:
		return "Iface"
	case *rawType:
		return u.sort
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsup("type %s", t))
}

func (m *TypeMap) structSort(key string, s *types.Struct, opaque bool) string {
	if r, ok := m.byKey[key]; ok {
		return r
	}
	short := key
	if i := strings.LastIndex(short, "/"); i >= 0 && !strings.Contains(short, "[") {
		short = short[i+1:]
	}
	if i := strings.Index(short, "["); i >= 0 {
		base := short[:i]
		short = base[strings.LastIndex(base, "/")+1:]
	}
	short = fmt.Sprintf("%s_%d", clean(trunc(short, 40)), m.nst)
	m.nst++
	if opaque {
		r := "X_" + short
		m.c.sorts[r] = true
		m.byKey[key] = r
		return r
	}
	if m.busy[key] {
		panic(unsup("recursive struct value %s", key))
	}
	m.busy[key] = true
	var sels []dtSel
	r := "S_" + short
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		sels = append(sels, dtSel{fmt.Sprintf("%s.%s%d", r, clean(f.Name()), i), m.Sort(f.Type())})
	}
	r = fmt.Sprintf("S_%s", short)
	m.byKey[key] = r
	m.c.Datatype(r, "mk_"+r, sels)
	m.busy[key] = false
	return r
}

func isOpaque(s string) bool { return strings.HasPrefix(s, "X_") }

func (m *TypeMap) ZeroSort(s string) *Term {
	c := m.c
	switch s {
	case "Int":
		return c.Int(0)
	case "Bool":
		return c.False()
	case "Str":
		return c.Str("")
	case "Slice":
		z := c.Int(0)
		return c.Mk("Slice", z, z, z, z)
	case "Iface":
		return c.Mk("Iface", c.Int(0), c.Int(0))
	}
	if strings.HasPrefix(s, "(Array") {
		return c.ConstArr(s, m.ZeroSort(elemSort(s)))
	}
	if con, ok := c.dtOf[s]; ok {
		var as []*Term
		for _, f := range c.dtSel[con] {
			as = append(as, m.ZeroSort(f.sort))
		}
		return c.Mk(s, as...)
	}
	return c.Const("zero_"+clean(s), s)
}
func (m *TypeMap) Zero(t types.Type) *Term { return m.ZeroSort(m.Sort(t)) }

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	sgn := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), one), true
	}
	uns := func(n uint) (*big.Int, *big.Int, bool) { return new(big.Int), new(big.Int).Sub(p(n), one), true }
	switch b.Kind() {
	case types.Int, types.Int64:
		return sgn(64)
	case types.Int32:
		return sgn(32)
	case types.Int16:
		return sgn(16)
	case types.Int8:
		return sgn(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return uns(64)
	case types.Uint32:
		return uns(32)
	case types.Uint16:
		return uns(16)
	case types.Uint8:
		return uns(8)
	}
	return nil, nil, false
}

func basicInt(t types.Type) *types.Basic {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	return b
}

const maxAlloc = int64(1) << 47

// Fact gives the typing facts every value of Go type t satisfies in a state whose next free reference is next.
func (m *TypeMap) Fact(v *Term, t types.Type, next *Term, depth int) *Term {
	c := m.c
	t = types.Unalias(t)
	if v.num != nil {
		return c.True()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			return c.And(c.Le(c.Num(lo), v), c.Le(v, c.Num(hi)))
		}
		if u.Info()&types.IsString != 0 {
			if _, ok := c.strVal[v]; ok {
				return c.True()
			}
			l := c.App("slen", "Int", v)
			return c.And(c.Le(c.Int(0), l), c.Le(l, c.Int(maxAlloc)), c.Imp(c.Eq(l, c.Int(0)), c.Eq(v, c.Str(""))))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if _, ok := t.(*types.TypeParam); ok {
			return c.True()
		}
		return c.And(c.Le(c.Int(0), v), c.Lt(v, next))
	case *types.Slice:
		r, o, l, k := c.Sel(v, 0), c.Sel(v, 1), c.Sel(v, 2), c.Sel(v, 3)
		return c.And(c.Le(c.Int(0), r), c.Lt(r, next), c.Le(c.Int(0), o), c.Le(c.Int(0), l), c.Le(l, k), c.Le(c.Add(o, k), c.Int(maxAlloc)),
			c.Imp(c.Eq(r, c.Int(0)), c.Eq(k, c.Int(0))))
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return c.True()
		}
		return c.And(c.Le(c.Int(0), c.Sel(v, 0)), c.Imp(c.Eq(c.Sel(v, 0), c.Int(0)), c.Eq(c.Sel(v, 1), c.Int(0))))
	case *types.Array:
		if u.Len() > 32 || v.op == "constarr" {
			return c.True()
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return c.True()
		}
		var fs []*Term
		for i := int64(0); i < u.Len(); i++ {
			fs = append(fs, m.Fact(c.Select(v, c.Int(i)), u.Elem(), next, 0))
		}
		return c.And(fs...)
	case *types.Struct:
		if depth <= 0 || isOpaque(v.sort) {
			return c.True()
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, m.Fact(c.Sel(v, i), u.Field(i).Type(), next, depth-1))
		}
		return c.And(fs...)
	}
	return c.True()
}

// pointerLike tells whether an interface payload of type t is the reference itself.
func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}
