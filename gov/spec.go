package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	Op   string
	Name string
	Num  *big.Int
	Args []*Expr
	Vars []VarDecl
	Trig [][]*Expr
	Src  string
}

type VarDecl struct{ Name, Type string }

type Clause struct {
	E    *Expr
	Src  string
	Name string // optional label
	Vars []VarDecl
	File string
	Line int
}

// Contract is the specification of one function.
// Callback is an obligation on a function given as an argument: EXPR holds after every call of it.
type Callback struct {
	Param           string
	Params, Results []string
	C               *Clause
}

type Contract struct {
	Key      string // pkgpath.Type.Func
	Pkg      string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Invs     []*Clause
	Callbacks []*Callback // what a function given as an argument does when it is called
	USets    []*Clause // ghost variables set at every unlock (old: when the lock was taken)
	Guar     []*Clause // what every critical section of the function guarantees (old: when the lock was taken)
	Panics   []*Clause // conditions under which the function may panic
	Lets     []*Clause
	Sets     []*Clause // ghost assignments executed when the function returns
	Uses     []string // lemma names / extra axioms to include
	Extern   bool     // trusted, no body checked
	Helper   bool
	Pure     bool
	Inline   bool // always inlined; invs used as hints
	Props    []string
	Notes    []string
	Opts     map[string]string
	File     string
	Line     int
	ModAll   bool
}

type Macro struct {
	Name   string
	Params []string
	Body   *Expr
	Pkg    string
}

type UF struct {
	Name string
	Args []string
	Ret  string
}

type Lemma struct {
	Name     string
	Vars     []VarDecl
	Requires []*Clause
	Ensures  []*Clause
	Induct   string
	Trig     [][]*Expr
	Axiom    bool
	Uses     []string
	Pkg      string
	Line     int
	File     string
	Props    []string
}

type Monitor struct {
	Type string // pkg.Type
	Lock string // field
	Recv string
	Mods []*Clause
	Invs []*Clause
	Guar []*Clause
	// clauses every critical section keeps, transitively, so that they hold between an unlock and the next lock (old: before the lock)
	Stable []*Clause
	Pkg  string
}

type Specs struct {
	C        map[string]*Contract
	Order    []string
	Macros   map[string]*Macro
	UFs      map[string]*UF
	Lemmas   map[string]*Lemma
	LemOrder []string
	Monitors map[string]*Monitor
	Facts    []*Clause // global facts about package-level variables, trusted
	Ghosts   map[string]string
}

var clauseKw = map[string]bool{"package": true, "func": true, "extern": true, "requires": true, "ensures": true, "modifies": true, "inv": true,
	"pure": true, "macro": true, "uf": true, "axiom": true, "lemma": true, "monitor": true, "helper": true, "prop": true, "panics": true, "inline": true,
	"note": true, "induct": true, "trigger": true, "opt": true, "uses": true, "let": true, "guarantee": true, "fact": true, "ghostvar": true, "ghostset": true, "unlockset": true, "callback": true, "stable": true}

func LoadSpecs(dir string) (*Specs, error) {
	s := &Specs{C: map[string]*Contract{}, Macros: map[string]*Macro{}, UFs: map[string]*UF{}, Lemmas: map[string]*Lemma{}, Monitors: map[string]*Monitor{}, Ghosts: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range files {
		if err := s.loadFile(f); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func splitKey(full string) (pkg, rest string) {
	i := strings.LastIndex(full, "/")
	j := strings.Index(full[i+1:], ".")
	return full[:i+1+j], full[i+1+j+1:]
}

func (s *Specs) loadFile(fn string) (err error) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	type cl struct {
		kw, body string
		line     int
	}
	var cls []cl
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		w := l
		if k := strings.IndexFunc(l, func(r rune) bool { return !unicode.IsLetter(r) }); k >= 0 {
			w = l[:k]
		}
		if clauseKw[w] {
			cls = append(cls, cl{w, strings.TrimSpace(l[len(w):]), i + 1})
		} else if len(cls) > 0 {
			cls[len(cls)-1].body += "\n" + l
		}
	}
	pkg := ""
	var cur *Contract
	var lem *Lemma
	var mon *Monitor
	var line int
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s:%d: %s", fn, line, u.msg)
				return
			}
			panic(r)
		}
	}()
	mkClause := func(c cl) *Clause {
		body := c.body
		r := &Clause{File: filepath.Base(fn), Line: c.line}
		if strings.HasPrefix(body, "[") && c.kw == "inv" {
			j := strings.Index(body, "]")
			for strings.HasSuffix(body[:j], "[") {
				j += 1 + strings.Index(body[j+1:], "]")
			}
			r.Vars = parseVars(body[1:j])
			body = strings.TrimSpace(body[j+1:])
		}
		if strings.HasPrefix(body, "@") {
			j := strings.IndexAny(body, " \n")
			r.Name = body[1:j]
			body = strings.TrimSpace(body[j:])
		}
		r.Src = strings.Join(strings.Fields(body), " ")
		r.E = parseExpr(body)
		return r
	}
	for _, c := range cls {
		line = c.line
		switch c.kw {
		case "package":
			pkg = c.body
			cur, lem, mon = nil, nil, nil
		case "func", "extern":
			cur = &Contract{Pkg: pkg, Opts: map[string]string{}, File: filepath.Base(fn), Line: c.line}
			lem, mon = nil, nil
			body := c.body
			if c.kw == "extern" {
				cur.Extern = true
				i := strings.Index(body, "(")
				cur.Key = strings.TrimSpace(body[:i])
				cur.Pkg, _ = splitKey(cur.Key)
				body = body[i:]
				ps, rest := takeParens(body)
				cur.Params = names(ps)
				if rest != "" {
					rs, _ := takeParens(rest)
					cur.Results = names(rs)
				}
			} else {
				recv := ""
				if strings.HasPrefix(body, "(") {
					var in string
					in, body = takeParens(body)
					f := strings.Fields(in)
					cur.Params = append(cur.Params, f[0])
					recv = strings.TrimPrefix(f[len(f)-1], "*")
					if i := strings.Index(recv, "["); i >= 0 {
						recv = recv[:i]
					}
					recv += "."
				}
				i := strings.Index(body, "(")
				name := strings.TrimSpace(body[:i])
				ps, rest := takeParens(body[i:])
				cur.Params = append(cur.Params, names(ps)...)
				if rest != "" {
					rs, _ := takeParens(rest)
					cur.Results = names(rs)
				}
				cur.Key = pkg + "." + recv + name
			}
			if old := s.C[cur.Key]; old != nil {
				panic(parseErr{"duplicate contract for " + cur.Key})
			}
			s.C[cur.Key] = cur
			s.Order = append(s.Order, cur.Key)
		case "requires":
			if lem != nil {
				lem.Requires = append(lem.Requires, mkClause(c))
			} else {
				cur.Requires = append(cur.Requires, mkClause(c))
			}
		case "ensures":
			if lem != nil {
				lem.Ensures = append(lem.Ensures, mkClause(c))
			} else {
				cur.Ensures = append(cur.Ensures, mkClause(c))
			}
		case "let":
			i := strings.Index(c.body, "=")
			c2 := c
			c2.body = c.body[i+1:]
			k := mkClause(c2)
			k.Name = strings.TrimSpace(c.body[:i])
			cur.Lets = append(cur.Lets, k)
		case "ghostset":
			n, rest, _ := strings.Cut(c.body, " ")
			c2 := c
			c2.body = rest
			k := mkClause(c2)
			k.Name = n
			cur.Sets = append(cur.Sets, k)
		case "callback":
			// callback f(a, b) (r, s) EXPR
			i := strings.Index(c.body, "(")
			cb := &Callback{Param: strings.TrimSpace(c.body[:i])}
			ps, rest := takeParens(c.body[i:])
			rs, rest2 := takeParens(strings.TrimSpace(rest))
			cb.Params, cb.Results = names(ps), names(rs)
			c2 := c
			c2.body = rest2
			cb.C = mkClause(c2)
			cur.Callbacks = append(cur.Callbacks, cb)
		case "unlockset":
			n, rest, _ := strings.Cut(c.body, " ")
			c2 := c
			c2.body = rest
			k := mkClause(c2)
			k.Name = n
			cur.USets = append(cur.USets, k)
		case "modifies":
			if c.body == "nothing" {
				break
			}
			if c.body == "everything" {
				cur.ModAll = true
				break
			}
			for _, e := range splitTop(c.body) {
				k := mkClause(cl{c.kw, e, c.line})
				if mon != nil {
					mon.Mods = append(mon.Mods, k)
				} else {
					cur.Modifies = append(cur.Modifies, k)
				}
			}
		case "inv":
			if mon != nil {
				mon.Invs = append(mon.Invs, mkClause(c))
			} else {
				cur.Invs = append(cur.Invs, mkClause(c))
			}
		case "stable":
			if mon == nil {
				return fmt.Errorf("%s: stable outside a monitor", c.line)
			}
			mon.Stable = append(mon.Stable, mkClause(c))
		case "guarantee":
			if mon != nil {
				mon.Guar = append(mon.Guar, mkClause(c))
			} else {
				cur.Guar = append(cur.Guar, mkClause(c))
			}
		case "panics":
			cur.Panics = append(cur.Panics, mkClause(c))
		case "pure":
			cur.Pure = true
		case "helper":
			cur.Helper = true
		case "inline":
			cur.Inline = true
		case "prop":
			if lem != nil {
				lem.Props = append(lem.Props, strings.Fields(c.body)...)
			} else {
				cur.Props = append(cur.Props, strings.Fields(c.body)...)
			}
		case "note":
			cur.Notes = append(cur.Notes, strings.Join(strings.Fields(c.body), " "))
		case "uses":
			if lem != nil {
				lem.Uses = append(lem.Uses, strings.Fields(c.body)...)
			} else {
				cur.Uses = append(cur.Uses, strings.Fields(c.body)...)
			}
		case "opt":
			for _, o := range strings.Fields(c.body) {
				k, v, _ := strings.Cut(o, "=")
				cur.Opts[k] = v
			}
		case "macro":
			i := strings.Index(c.body, "(")
			ps, rest := takeParens(c.body[i:])
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, "=") {
				panic(parseErr{"macro needs ="})
			}
			n := strings.TrimSpace(c.body[:i])
			if s.Macros[n] != nil {
				panic(parseErr{"duplicate macro " + n})
			}
			s.Macros[n] = &Macro{Name: n, Params: names(ps), Body: parseExpr(rest[1:]), Pkg: pkg}
		case "uf":
			i := strings.Index(c.body, "(")
			ps, rest := takeParens(c.body[i:])
			n := strings.TrimSpace(c.body[:i])
			u := &UF{Name: n, Ret: strings.TrimSpace(rest)}
			for _, p := range splitTop(ps) {
				u.Args = append(u.Args, strings.TrimSpace(p))
			}
			s.UFs[n] = u
		case "axiom", "lemma":
			i := strings.Index(c.body, "(")
			ps, rest := takeParens(c.body[i:])
			lem = &Lemma{Name: strings.TrimSpace(c.body[:i]), Vars: parseVars(ps), Axiom: c.kw == "axiom", Pkg: pkg, Line: c.line, File: filepath.Base(fn)}
			cur, mon = nil, nil
			rest = strings.TrimSpace(rest)
			if rest != "" {
				lem.Ensures = append(lem.Ensures, mkClause(cl{c.kw, rest, c.line}))
			}
			s.Lemmas[lem.Name] = lem
			s.LemOrder = append(s.LemOrder, lem.Name)
		case "induct":
			lem.Induct = c.body
		case "trigger":
			var g []*Expr
			for _, e := range splitTop(c.body) {
				g = append(g, parseExpr(e))
			}
			lem.Trig = append(lem.Trig, g)
		case "monitor":
			// monitor (c *Type) lockfield
			in, rest := takeParens(c.body)
			f := strings.Fields(in)
			if i := strings.Index(f[len(f)-1], "["); i > 0 {
				f[len(f)-1] = f[len(f)-1][:i]
			}
			mon = &Monitor{Recv: f[0], Type: pkg + "." + strings.TrimPrefix(f[len(f)-1], "*"), Lock: strings.TrimSpace(rest), Pkg: pkg}
			cur, lem = nil, nil
			s.Monitors[mon.Type+"."+mon.Lock] = mon
		case "ghostvar":
			f := strings.SplitN(c.body, " ", 2)
			s.Ghosts[f[0]] = strings.TrimSpace(f[1])
		case "fact":
			k := mkClause(c)
			k.Name = pkg
			s.Facts = append(s.Facts, k)
		}
	}
	return nil
}

func takeParens(s string) (in, rest string) {
	s = strings.TrimSpace(s)
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return s[1:i], strings.TrimSpace(s[i+1:])
			}
		}
	}
	panic(parseErr{"unbalanced parens: " + s})
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func names(s string) []string {
	var out []string
	for _, p := range splitTop(s) {
		out = append(out, strings.Fields(p)[0])
	}
	return out
}

// parseVars parses "i, j int, s []T"
func parseVars(s string) []VarDecl {
	var out []VarDecl
	for _, p := range splitTop(s) {
		f := strings.SplitN(p, " ", 2)
		d := VarDecl{Name: f[0]}
		if len(f) == 2 {
			d.Type = strings.TrimSpace(f[1])
		}
		out = append(out, d)
	}
	t := "int"
	for i := len(out) - 1; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = t
		}
		t = out[i].Type
	}
	return out
}

type parseErr struct{ msg string }

type tok struct {
	k string // num, str, id, op, eof
	s string
}

type parser struct {
	toks []tok
	i    int
	src  string
}

func lex(s string) []tok {
	var out []tok
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "->"}
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case ch == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
		case ch == '_' || ch == '#' || unicode.IsLetter(rune(ch)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '#' || s[j] == '$' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				out = append(out, tok{"op", string(ch)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func parseExpr(s string) *Expr {
	p := &parser{toks: lex(s), src: s}
	e := p.expr(0)
	if p.cur().k != "eof" {
		panic(parseErr{fmt.Sprintf("unexpected %q in %q", p.cur().s, s)})
	}
	e.Src = s
	return e
}

func (p *parser) cur() tok { return p.toks[p.i] }
func (p *parser) is(s string) bool {
	return p.cur().k == "op" && p.cur().s == s
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic(parseErr{fmt.Sprintf("expected %q, got %q in %q", s, p.cur().s, p.src)})
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.cur()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min || pr == 0 {
			return l
		}
		if t.s == "?" {
			if pr < min {
				return l
			}
			p.i++
			a := p.expr(0)
			p.eat(":")
			b := p.expr(pr)
			l = &Expr{Op: "ite", Args: []*Expr{l, a, b}}
			continue
		}
		p.i++
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		e := &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}}
		// comparison chains a <= b < c
		if pr == 6 && l.Op == "bin" && prec[l.Name] == 6 && l.Name != "in" && isOrd(l.Name) && isOrd(t.s) {
			e = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, {Op: "bin", Name: t.s, Args: []*Expr{l.Args[1], r}}}}
		} else if pr == 6 && l.Op == "bin" && l.Name == "&&" && isOrd(t.s) && l.Args[1].Op == "bin" && isOrd(l.Args[1].Name) {
			e = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, {Op: "bin", Name: t.s, Args: []*Expr{l.Args[1].Args[1], r}}}}
		}
		l = e
	}
}
func isOrd(s string) bool { return s == "<" || s == "<=" || s == ">" || s == ">=" }

func (p *parser) unary() *Expr {
	t := p.cur()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*":
			p.i++
			return &Expr{Op: "un", Name: t.s, Args: []*Expr{p.unary()}}
		}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.cur()
	p.i++
	switch t.k {
	case "num":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			panic(parseErr{"bad number " + t.s})
		}
		return &Expr{Op: "num", Num: n}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			var vs string
			for !p.is("::") {
				if p.cur().k == "eof" {
					panic(parseErr{"missing :: in " + p.src})
				}
				x := p.cur().s
				if p.cur().k == "id" && vs != "" && !strings.HasSuffix(vs, "]") && !strings.HasSuffix(vs, "*") && !strings.HasSuffix(vs, ".") {
					x = " " + x
				} else if p.cur().k == "op" && (x == "*" || x == "[") && !strings.HasSuffix(vs, "]") {
					x = " " + x
				}
				vs += x
				p.i++
			}
			p.eat("::")
			e := &Expr{Op: t.s, Vars: parseVars(vs)}
			for p.is("{") {
				p.i++
				var g []*Expr
				for {
					g = append(g, p.expr(0))
					if p.is(",") {
						p.i++
						continue
					}
					break
				}
				p.eat("}")
				e.Trig = append(e.Trig, g)
			}
			e.Args = []*Expr{p.expr(0)}
			return e
		}
		return &Expr{Op: "id", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	panic(parseErr{fmt.Sprintf("unexpected %q in %q", t.s, p.src)})
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.i++
			n := p.cur().s
			p.i++
			e = &Expr{Op: "sel", Name: n, Args: []*Expr{e}}
		case p.is("["):
			p.i++
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.expr(0)
			}
			if p.is(":") {
				p.i++
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.eat("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
				continue
			}
			p.eat("]")
			e = &Expr{Op: "idx", Args: []*Expr{e, lo}}
		case p.is("("):
			p.i++
			c := &Expr{Op: "call", Args: []*Expr{e}}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr(0))
				if p.is(",") {
					p.i++
				}
			}
			p.eat(")")
			e = c
		default:
			return e
		}
	}
}
