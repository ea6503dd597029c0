package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---- contracts ----
type Clause struct {
	Label string
	E     *Expr
	Text  string
}
type GhostParam struct{ Name, Type string }
type ModClause struct {
	Kind string // deref, backing, map, objs, all
	E    *Expr
	Typ  string
	Var  string
	Cond *Expr
	Text string
}
type FuncSpec struct {
	Key       string
	Params    []string
	Props     []string
	Ghosts    []GhostParam
	Requires  []*Clause
	Ensures   []*Clause
	PanicsIf  []*Clause
	Invs      []*Clause
	Decs      []*Clause
	Modifies  []*ModClause
	Lets      []*LetClause
	Opts      map[string]bool
	OptVal    map[string]string
	Uses      []*Clause // lemma instances to add to every obligation
	Inline    bool
	Trusted   string
	File      string
	Law       bool // a lemma
	Instances map[string]string
	Cases     []*Clause
	Asserts   []*Clause
	Measure   *Clause
	Sets      []SetStmt
}
type LetClause struct {
	Name string
	E    *Expr
}
type Macro struct {
	Name   string
	Params []string
	E      *Expr
}
type UFSpec struct {
	Name string
	TV   []string // type variables
	Args []string
	Ret  string
}
type AxiomSpec struct {
	Name  string
	TV    []string // type variables, bound as in the uninterpreted function Of
	Of    string
	Vars  []GhostParam
	E     *Expr
	Kind  string
	Pats  [][]*Expr
	Off   bool
	Props []string
}
type LemmaSpec struct {
	Name     string
	Vars     []GhostParam
	Requires []*Clause
	Ensures  []*Clause
	Uses     []*Clause
	Induct   string
	Props    []string
	Opts     map[string]bool
	Pats     [][]*Expr
	TV       []string // a lemma about the polymorphic spec function Of is used as an axiom once proved
	Of       string
}

type SpecSet struct {
	funcs  map[string]*FuncSpec
	order  []string
	macros map[string]*Macro
	ufs    map[string]*UFSpec
	axs    []*AxiomSpec
	lemmas map[string]*LemmaSpec
	lorder []string
	ghosts map[string]string // Type.field -> spec type
}

// ---- expressions ----
type Expr struct {
	Op   string // name, int, str, field, index, call, un, bin, forall, exists, ite, old, slice
	Name string
	N    *big.Int
	Args []*Expr
	Vars []GhostParam
	Pats [][]*Expr
	Lo   []*Expr // optional ranges of bound variables (pairs)
	Line int
	File string
}

type tokn struct {
	kind string // id, int, str, op, eof
	s    string
	line int
}

var reserved = map[string]bool{"def": true, "func": true, "requires": true, "ensures": true, "panics_if": true, "inv": true, "dec": true,
	"modifies": true, "opt": true, "uf": true, "axiom": true, "lemma": true, "foreach": true, "ghost": true, "trusted": true,
	"inline": true, "use": true, "let": true, "induct": true, "pattern": true, "cases": true, "assert": true, "measure": true, "set": true, "ghostfield": true}

func lex(file, src string) []tokn {
	var out []tokn
	line := 1
	i := 0
	isId := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' || c >= '0' && c <= '9' || c == '?'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				sb.WriteByte(src[j])
				j++
			}
			out = append(out, tokn{"str", sb.String(), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tokn{"int", src[i:j], line})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			out = append(out, tokn{"id", src[i:j], line})
			i = j
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", "::", "..", "==", "!=", "<=", ">=", "&&", "||", ":="} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
			}
			out = append(out, tokn{"op", op, line})
			i += len(op)
		}
	}
	return append(out, tokn{"eof", "", line})
}

type parser struct {
	file string
	t    []tokn
	i    int
}

func (p *parser) peek() tokn { return p.t[p.i] }
func (p *parser) next() tokn { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, have %q", s, p.peek().s)
	}
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) ident() string {
	t := p.next()
	if t.kind != "id" {
		p.i--
		p.fail("identifier expected, have %q", t.s)
	}
	return t.s
}

// expandForeach expands `foreach X in A B C { ... }` at token level.
func expandForeach(file string, ts []tokn) []tokn {
	var out []tokn
	for i := 0; i < len(ts); i++ {
		if ts[i].kind == "id" && ts[i].s == "foreach" {
			vars := []string{ts[i+1].s}
			j := i + 2
			for ts[j].s == "," {
				vars = append(vars, ts[j+1].s)
				j += 2
			}
			j++ // in
			var items [][]string
			for ts[j].s != "{" {
				it := []string{ts[j].s}
				j++
				for k := 1; k < len(vars); k++ {
					if ts[j].s != ":" {
						panic(fmt.Sprintf("%s:%d: foreach tuple", file, ts[j].line))
					}
					neg := ""
					if ts[j+1].s == "-" {
						neg = "-"
						j++
					}
					it = append(it, neg+ts[j+1].s)
					j += 2
				}
				items = append(items, it)
			}
			d := 1
			k := j + 1
			for d > 0 {
				if ts[k].s == "{" && ts[k].kind == "op" {
					d++
				}
				if ts[k].s == "}" && ts[k].kind == "op" {
					d--
				}
				k++
			}
			body := ts[j+1 : k-1]
			for _, it := range items {
				var nb []tokn
				for _, t := range body {
					n := t
					if t.kind == "id" || t.kind == "str" {
						for q, v := range vars {
							n.s = strings.ReplaceAll(n.s, "$"+v, it[q])
						}
						if n.kind == "id" && len(n.s) > 0 && (n.s[0] >= '0' && n.s[0] <= '9') {
							n.kind = "int"
						}
						if n.kind == "id" && len(n.s) > 1 && n.s[0] == '-' {
							nb = append(nb, tokn{"op", "-", n.line})
							n.kind = "int"
							n.s = n.s[1:]
						}
					}
					nb = append(nb, n)
				}
				out = append(out, expandForeach(file, nb)...)
			}
			i = k - 1
			continue
		}
		out = append(out, ts[i])
	}
	return out
}

func loadSpecs(dir string) *SpecSet {
	ss := &SpecSet{funcs: map[string]*FuncSpec{}, macros: map[string]*Macro{}, ufs: map[string]*UFSpec{}, lemmas: map[string]*LemmaSpec{}, ghosts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ss.parse(filepath.Base(f), string(b))
	}
	return ss
}

func (ss *SpecSet) parse(file, src string) {
	p := &parser{file: file, t: expandForeach(file, lex(file, src))}
	var cur *FuncSpec
	var lem *LemmaSpec
	clause := func() *Clause {
		c := &Clause{}
		if p.is("[") {
			p.next()
			for !p.is("]") {
				c.Label += p.next().s
			}
			p.next()
		}
		a := p.i
		c.E = p.expr(0)
		for k := a; k < p.i; k++ {
			c.Text += p.t[k].s + " "
		}
		return c
	}
	for p.peek().kind != "eof" {
		t := p.next()
		switch t.s {
		case "def":
			m := &Macro{Name: p.ident()}
			if p.accept("(") {
				for !p.accept(")") {
					m.Params = append(m.Params, p.ident())
					p.accept(",")
				}
			}
			p.expect("=")
			m.E = p.expr(0)
			if ss.macros[m.Name] != nil {
				p.fail("macro %s redefined", m.Name)
			}
			ss.macros[m.Name] = m
		case "uf":
			u := &UFSpec{Name: p.ident()}
			u.TV = p.tvars()
			p.expect("(")
			for !p.accept(")") {
				u.Args = append(u.Args, p.typeName())
				p.accept(",")
			}
			p.expect(":")
			u.Ret = p.typeName()
			ss.ufs[u.Name] = u
		case "axiom":
			a := &AxiomSpec{Name: p.ident(), Kind: "definition"}
			if a.TV = p.tvars(); a.TV != nil {
				p.expect("of")
				a.Of = p.ident()
			}
			if p.accept("assumed") {
				a.Kind = "assumed"
			}
			if p.accept("(") {
				a.Vars = p.varList(")")
				p.expect(")")
			}
			a.Pats = p.pats()
			p.expect(":")
			a.E = p.expr(0)
			ss.axs = append(ss.axs, a)
		case "lemma":
			lem = &LemmaSpec{Name: p.ident(), Opts: map[string]bool{}}
			cur = nil
			if lem.TV = p.tvars(); lem.TV != nil {
				p.expect("of")
				lem.Of = p.ident()
			}
			if p.accept("(") {
				lem.Vars = p.varList(")")
				p.expect(")")
			}
			for p.accept("@") {
				lem.Props = append(lem.Props, p.ident())
			}
			lem.Pats = p.pats()
			ss.lemmas[lem.Name] = lem
			ss.lorder = append(ss.lorder, lem.Name)
		case "induct":
			lem.Induct = p.ident()
		case "func":
			cur = &FuncSpec{Opts: map[string]bool{}, OptVal: map[string]string{}, File: file}
			lem = nil
			cur.Key = p.ident()
			for p.accept(".") {
				cur.Key += "." + p.ident()
			}
			p.expect("(")
			for !p.accept(")") {
				cur.Params = append(cur.Params, p.ident())
				p.accept(",")
			}
			for p.accept("@") {
				cur.Props = append(cur.Props, p.ident())
			}
			if ss.funcs[cur.Key] != nil {
				p.fail("contract for %s given twice", cur.Key)
			}
			ss.funcs[cur.Key] = cur
			ss.order = append(ss.order, cur.Key)
		case "requires":
			c := clause()
			if lem != nil {
				lem.Requires = append(lem.Requires, c)
			} else {
				cur.Requires = append(cur.Requires, c)
			}
		case "ensures":
			c := clause()
			if lem != nil {
				lem.Ensures = append(lem.Ensures, c)
			} else {
				cur.Ensures = append(cur.Ensures, c)
			}
		case "use":
			c := clause()
			if lem != nil {
				lem.Uses = append(lem.Uses, c)
			} else {
				cur.Uses = append(cur.Uses, c)
			}
		case "measure":
			cur.Measure = clause()
		case "set":
			var s SetStmt
			if p.accept("when") {
				p.expect("(")
				s.When = p.expr(0)
				p.expect(")")
			}
			if p.accept("forall") {
				s.Var = p.ident()
				p.expect("::")
			}
			s.L = p.postfix()
			p.expect("=")
			s.R = p.expr(0)
			cur.Sets = append(cur.Sets, s)
		case "ghostfield":
			n := p.ident()
			p.expect(".")
			n += "." + p.ident()
			p.expect(":")
			ss.ghosts[n] = p.typeName()
		case "panics_if":
			cur.PanicsIf = append(cur.PanicsIf, clause())
		case "inv":
			cur.Invs = append(cur.Invs, clause())
		case "assert":
			cur.Asserts = append(cur.Asserts, clause())
		case "cases":
			cur.Cases = append(cur.Cases, clause())
		case "dec":
			cur.Decs = append(cur.Decs, clause())
		case "let":
			n := p.ident()
			p.expect("=")
			cur.Lets = append(cur.Lets, &LetClause{n, p.expr(0)})
		case "ghost":
			n := p.ident()
			p.expect(":")
			cur.Ghosts = append(cur.Ghosts, GhostParam{n, p.typeName()})
		case "modifies":
			for {
				m := &ModClause{}
				a := p.i
				switch {
				case p.accept("objs"):
					m.Kind = "objs"
					m.Var = p.ident()
					p.expect(":")
					m.Typ = p.typeName()
					p.expect("if")
					m.Cond = p.expr(0)
				case p.accept("backings"):
					m.Kind = "backings"
					m.Var = p.ident()
					p.expect(":")
					m.Typ = p.typeName()
					p.expect("if")
					m.Cond = p.expr(0)
				case p.accept("backing"):
					m.Kind = "backing"
					p.expect("(")
					m.E = p.expr(0)
					p.expect(")")
				case p.accept("map"):
					m.Kind = "map"
					p.expect("(")
					m.E = p.expr(0)
					p.expect(")")
				case p.accept("calls"):
					m.Kind = "calls"
				default:
					p.expect("*")
					m.Kind = "deref"
					m.E = p.expr(90)
				}
				for k := a; k < p.i; k++ {
					m.Text += p.t[k].s + " "
				}
				cur.Modifies = append(cur.Modifies, m)
				if !p.accept(",") {
					break
				}
			}
		case "opt":
			for {
				n := p.ident()
				if p.accept(":") {
					n += ":" + p.ident()
					if p.accept(".") {
						n += "." + p.ident()
					}
				}
				if lem != nil {
					lem.Opts[n] = true
				} else if p.accept("=") {
					x := p.next().s
					cur.OptVal[n] = x
					cur.Opts[n] = true
				} else {
					cur.Opts[n] = true
				}
				if !p.accept(",") {
					break
				}
			}
		case "trusted":
			tk := p.next()
			cur.Trusted = tk.s
		case "inline":
			cur.Inline = true
		default:
			p.i--
			p.fail("unexpected %q", t.s)
		}
	}
}

func (p *parser) tvars() (out []string) {
	if p.accept("[") {
		for !p.accept("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
	}
	return
}

func (p *parser) typeName() string {
	s := ""
	for p.accept("*") {
		s += "*"
	}
	if p.accept("[") {
		p.expect("]")
		return s + "[]" + p.typeName()
	}
	s += p.ident()
	for p.accept(".") {
		s += "." + p.ident()
	}
	if p.accept("[") {
		s += "["
		for {
			s += p.typeName()
			if !p.accept(",") {
				break
			}
			s += ","
		}
		p.expect("]")
		s += "]"
	}
	return s
}
func (p *parser) pats() [][]*Expr {
	var out [][]*Expr
	for p.accept("pattern") {
		p.expect("(")
		var ps []*Expr
		for {
			ps = append(ps, p.expr(0))
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		out = append(out, ps)
	}
	return out
}
func (p *parser) varList(end string) []GhostParam {
	var vs []GhostParam
	for !p.is(end) {
		g := GhostParam{Name: p.ident(), Type: ""}
		if p.accept(":") {
			g.Type = p.typeName()
		}
		vs = append(vs, g)
		if !p.accept(",") {
			break
		}
	}
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].Type == "" {
			if i+1 < len(vs) {
				vs[i].Type = vs[i+1].Type
			} else {
				vs[i].Type = "int"
			}
		}
	}
	return vs
}

var binPrec = map[string]int{"<==>": 5, "==>": 10, "||": 20, "&&": 30, "==": 40, "!=": 40, "<": 40, "<=": 40, ">": 40, ">=": 40, "in": 40,
	"++": 45, "+": 50, "-": 50, "*": 60, "/": 60, "%": 60, "^": 80}

func (p *parser) mk(op string, args ...*Expr) *Expr {
	return &Expr{Op: op, Args: args, Line: p.peek().line, File: p.file}
}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.kind != "op" && !(t.kind == "id" && t.s == "in") {
			return l
		}
		op := t.s
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return l
		}
		if op == "+" && p.t[p.i+1].s == "+" && p.t[p.i+1].kind == "op" {
			p.next()
			p.next()
			r := p.expr(46)
			l = p.mk("call", l, r)
			l.Name = "concat"
			continue
		}
		p.next()
		switch op {
		case "==>":
			r := p.expr(pr)
			l = p.mk("bin", l, r)
			l.Name = op
		case "<", "<=", ">", ">=", "==", "!=":
			r := p.expr(pr + 1)
			e := p.mk("bin", l, r)
			e.Name = op
			// chains: a <= b < c
			for {
				t := p.peek()
				if t.kind == "op" && (t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=" || t.s == "==") && pr >= min {
					p.next()
					r2 := p.expr(pr + 1)
					c := p.mk("bin", r, r2)
					c.Name = t.s
					a := p.mk("bin", e, c)
					a.Name = "&&"
					e = a
					r = r2
					continue
				}
				break
			}
			l = e
		default:
			r := p.expr(pr + 1)
			l = p.mk("bin", l, r)
			l.Name = op
		}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	switch {
	case t.kind == "op" && (t.s == "!" || t.s == "-" || t.s == "*"):
		p.next()
		a := p.expr(70)
		e := p.mk("un", a)
		e.Name = t.s
		return e
	case t.kind == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		e := p.mk(t.s)
		for {
			g := GhostParam{Name: p.ident(), Type: ""}
			var lo, hi *Expr
			if p.accept(":") {
				g.Type = p.typeName()
			} else if p.accept("in") {
				lo = p.expr(45)
				p.expect("..")
				hi = p.expr(45)
				g.Type = "int"
			}
			e.Vars = append(e.Vars, g)
			e.Lo = append(e.Lo, lo, hi)
			if !p.accept(",") {
				break
			}
		}
		for i := len(e.Vars) - 1; i >= 0; i-- {
			if e.Vars[i].Type == "" {
				if i+1 < len(e.Vars) {
					e.Vars[i].Type = e.Vars[i+1].Type
					e.Lo[2*i], e.Lo[2*i+1] = e.Lo[2*i+2], e.Lo[2*i+3]
				} else {
					e.Vars[i].Type = "int"
				}
			}
		}
		e.Pats = p.pats()
		p.expect("::")
		e.Args = []*Expr{p.expr(0)}
		return e
	case t.kind == "id" && t.s == "if":
		p.next()
		c := p.expr(0)
		p.expect("then")
		a := p.expr(0)
		p.expect("else")
		b := p.expr(0)
		return p.mk("ite", c, a, b)
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t.kind == "int":
		e = p.mk("int")
		e.N, _ = new(big.Int).SetString(t.s, 10)
	case t.kind == "str":
		e = p.mk("str")
		e.Name = t.s
	case t.s == "(":
		e = p.expr(0)
		p.expect(")")
	case t.kind == "id" && !reserved[t.s]:
		e = p.mk("name")
		e.Name = t.s
		if (t.s == "old" || t.s == "pre") && p.is("(") {
			p.next()
			a := p.expr(0)
			p.expect(")")
			e = p.mk(t.s, a)
		} else if p.is("(") {
			p.next()
			e.Op = "call"
			for !p.is(")") {
				e.Args = append(e.Args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
	default:
		p.i--
		p.fail("expression expected, have %q", t.s)
	}
	for {
		switch {
		case p.is(".") && (p.t[p.i+1].kind == "id" || p.t[p.i+1].kind == "int"):
			p.next()
			f := p.next()
			n := p.mk("field", e)
			n.Name = f.s
			e = n
		case p.is("["):
			p.next()
			i := p.expr(0)
			if p.is(":") {
				p.next()
				j := p.expr(0)
				p.expect("]")
				e = p.mk("strslice", e, i, j)
				break
			}
			p.expect("]")
			e = p.mk("index", e, i)
		default:
			return e
		}
	}
}

// SetStmt is a ghost assignment at every exit: `set [when (cond)] [forall r ::] base.field = value`.
type SetStmt struct {
	When *Expr
	Var  string
	L, R *Expr
}
