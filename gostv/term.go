package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string // "sym","int","bv","true","false","bvar","forall","exists", or an SMT operator / UF name
	Args  []*Term
	Sort  string
	Name  string   // sym, bvar
	N     *big.Int // int, bv
	Vars  []*Term
	Pats  [][]*Term
	id    int
	bound bool // contains a free bound variable
	qd    int  // nesting depth of quantifiers
	lo    *big.Int
	hi    *big.Int // interval known for this atom (asserted as a fact when used)
}

var (
	ttab   = map[string]*Term{}
	tcount int
)

func mkTerm(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	if t.N != nil {
		sb.WriteString(t.N.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.Vars {
		sb.WriteByte('v')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.Pats {
		sb.WriteByte('p')
		for _, a := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
	}
	k := sb.String()
	if o, ok := ttab[k]; ok {
		return o
	}
	tcount++
	t.id = tcount
	if t.Op == "bvar" {
		t.bound = true
	}
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
		if a.qd > t.qd {
			t.qd = a.qd
		}
	}
	if len(t.Vars) > 0 {
		t.qd++ // quantifier: bound only if body mentions outer bound vars
		t.bound = hasOuterBound(t.Args[0], t.Vars)
	}
	ttab[k] = t
	return t
}

func hasOuterBound(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "bvar" {
			for _, v := range vars {
				if v == t {
					return false
				}
			}
			return true
		}
		if len(t.Vars) > 0 {
			return hasOuterBound(t.Args[0], append(append([]*Term{}, vars...), t.Vars...))
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var symCount int

func freshSym(name, sort string) *Term {
	symCount++
	return mkTerm(&Term{Op: "sym", Name: fmt.Sprintf("%s!%d", cleanName(name), symCount), Sort: sort})
}
func namedSym(name, sort string) *Term {
	return mkTerm(&Term{Op: "sym", Name: cleanName(name), Sort: sort})
}
func freshBVar(name, sort string) *Term {
	symCount++
	return mkTerm(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", cleanName(name), symCount), Sort: sort})
}
func cleanName(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$':
			return r
		}
		return '_'
	}, s)
}

var (
	tTrue  = mkTerm(&Term{Op: "true", Sort: "Bool"})
	tFalse = mkTerm(&Term{Op: "false", Sort: "Bool"})
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func IntB(n *big.Int) *Term { return mkTerm(&Term{Op: "int", Sort: "Int", N: n}) }
func Int(n int64) *Term     { return IntB(big.NewInt(n)) }
func pow2(n int) *big.Int   { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
func BV(n *big.Int, w int) *Term {
	m := new(big.Int).Mod(n, pow2(w))
	return mkTerm(&Term{Op: "bv", Sort: bvSort(w), N: m})
}
func bvSort(w int) string { return fmt.Sprintf("(_ BitVec %d)", w) }
func bvWidth(s string) int {
	var w int
	if n, _ := fmt.Sscanf(s, "(_ BitVec %d)", &w); n == 1 {
		return w
	}
	return 0
}
func isBV(s string) bool { return strings.HasPrefix(s, "(_ BitVec") }
func arrSort(i, e string) string {
	return "(Array " + i + " " + e + ")"
}

// splitArr returns index and element sort of an array sort.
func splitArr(s string) (string, string) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("splitArr " + s)
}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isConst() bool {
	return t.Op == "int" || t.Op == "bv" || t.Op == "true" || t.Op == "false"
}

func App(op, sort string, args ...*Term) *Term {
	return mkTerm(&Term{Op: op, Sort: sort, Args: args})
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return App("not", "Bool", a)
}
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "true" || seen[a] {
			return true
		}
		if a.Op == "false" || seen[Not(a)] {
			return false
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", "Bool", out...)
}
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		var l []*Term
		if a.Op == "or" {
			l = a.Args
		} else {
			l = []*Term{a}
		}
		for _, b := range l {
			if b.Op == "true" || seen[Not(b)] {
				return tTrue
			}
			if b.Op == "false" || seen[b] {
				continue
			}
			seen[b] = true
			out = append(out, b)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", "Bool", out...)
}
func Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return tTrue
	}
	if b.Op == "false" {
		return Not(a)
	}
	return App("=>", "Bool", a, b)
}
func Ite(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.Sort, b.Sort))
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return Or(c, b)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
		if b.Op == "false" {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	return App("ite", a.Sort, c, a, b)
}

// ---- integer linear normal form ----
type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func linOf(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, c *big.Int) {
	switch {
	case t.Op == "int":
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(t.N, c))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, c)
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].Op == "int":
		l.add(t.Args[1], new(big.Int).Mul(c, t.Args[0].N))
	default:
		o := l.m[t]
		if o == nil {
			o = new(big.Int)
		}
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
	}
}
func (l lin) keys() []*Term {
	ks := make([]*Term, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
func (l lin) term() *Term {
	var as []*Term
	for _, k := range l.keys() {
		c := l.m[k]
		if c.IsInt64() && c.Int64() == 1 {
			as = append(as, k)
		} else {
			as = append(as, App("*", "Int", IntB(c), k))
		}
	}
	if l.k.Sign() != 0 || len(as) == 0 {
		as = append(as, IntB(l.k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return App("+", "Int", as...)
}
func Add(as ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, a := range as {
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return IntB(new(big.Int).Mul(a.N, b.N))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		l.add(a, b.N)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	// distribute constants out of linear factors for canonical forms is not attempted
	return App("*", "Int", a, b)
}
func iDiv(a, b *Term) *Term { // SMT-LIB Euclidean div
	if b.isInt() && b.N.Sign() != 0 {
		if a.isInt() {
			q, _ := new(big.Int).DivMod(a.N, b.N, new(big.Int))
			return IntB(q)
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return App("div", "Int", a, b)
}
func iMod(a, b *Term) *Term {
	if b.isInt() && b.N.Sign() > 0 {
		if a.isInt() {
			_, m := new(big.Int).DivMod(a.N, b.N, new(big.Int))
			return IntB(m)
		}
		lo, hi := interval(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return a
		}
	}
	return App("mod", "Int", a, b)
}

// interval computes a sound interval using registered atom ranges.
func interval(t *Term) (*big.Int, *big.Int) {
	if t.lo != nil || t.hi != nil {
		return t.lo, t.hi
	}
	switch t.Op {
	case "int":
		return t.N, t.N
	case "+", "*":
		if t.Op == "*" && t.Args[0].Op != "int" {
			al, ah := interval(t.Args[0])
			bl, bh := interval(t.Args[1])
			if al != nil && ah != nil && bl != nil && bh != nil {
				var ps []*big.Int
				for _, x := range []*big.Int{al, ah} {
					for _, y := range []*big.Int{bl, bh} {
						ps = append(ps, new(big.Int).Mul(x, y))
					}
				}
				lo, hi := ps[0], ps[0]
				for _, p := range ps {
					if p.Cmp(lo) < 0 {
						lo = p
					}
					if p.Cmp(hi) > 0 {
						hi = p
					}
				}
				return lo, hi
			}
			return nil, nil
		}
		l := linOf(t)
		lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
		for k, c := range l.m {
			a, b := interval(k)
			if k.Op == "+" {
				a, b = nil, nil
			}
			if c.Sign() < 0 {
				a, b = b, a
			}
			if lo != nil {
				if a == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(a, c))
				}
			}
			if hi != nil {
				if b == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(b, c))
				}
			}
		}
		return lo, hi
	case "ite":
		al, ah := interval(t.Args[1])
		bl, bh := interval(t.Args[2])
		var lo, hi *big.Int
		if al != nil && bl != nil {
			lo = al
			if bl.Cmp(lo) < 0 {
				lo = bl
			}
		}
		if ah != nil && bh != nil {
			hi = ah
			if bh.Cmp(hi) > 0 {
				hi = bh
			}
		}
		return lo, hi
	case "mod":
		if t.Args[1].isInt() && t.Args[1].N.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].N, big.NewInt(1))
		}
	case "div":
		if t.Args[1].isInt() && t.Args[1].N.Sign() > 0 {
			al, ah := interval(t.Args[0])
			var lo, hi *big.Int
			if al != nil {
				lo, _ = new(big.Int).DivMod(al, t.Args[1].N, new(big.Int))
			}
			if ah != nil {
				hi, _ = new(big.Int).DivMod(ah, t.Args[1].N, new(big.Int))
			}
			return lo, hi
		}
	}
	return nil, nil
}

func Le(a, b *Term) *Term { // a <= b
	d := linOf(b)
	d.add(a, big.NewInt(-1))
	if len(d.m) == 0 {
		return Bool(d.k.Sign() >= 0)
	}
	lo, hi := interval(d.term())
	if lo != nil && lo.Sign() >= 0 {
		// keep: facts are asserted anyway; simplification is sound because ranges are asserted as facts
		return tTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	return App("<=", "Bool", a, b)
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch: %s vs %s (%s, %s)", a.Sort, b.Sort, showTerm(a), showTerm(b)))
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	if a.Sort == "Int" {
		d := linOf(a)
		d.add(b, big.NewInt(-1))
		if len(d.m) == 0 {
			return Bool(d.k.Sign() == 0)
		}
		lo, hi := interval(d.term())
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return tFalse
		}
		// ite(c, k1, k2) == k
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, y := p[0], p[1]
			if x.Op == "ite" && y.isInt() && x.Args[1].isInt() || x.Op == "ite" && y.isInt() && x.Args[2].isInt() {
				return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", "Bool", a, b)
}

func Select(a, i *Term) *Term {
	_, es := splitArr(a.Sort)
	for a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e.Op == "true" {
			return a.Args[2]
		}
		if e.Op != "false" {
			break
		}
		a = a.Args[0]
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr") && !i.bound {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return App("select", es, a, i)
}
func Store(a, i, v *Term) *Term {
	_, es := splitArr(a.Sort)
	if es != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && Eq(a.Args[1], i).Op == "true" {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && Eq(v.Args[1], i).Op == "true" {
		return a
	}
	return App("store", a.Sort, a, i, v)
}
func ConstArr(sort string, v *Term) *Term { return App("constarr", sort, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	var vs []*Term
	fv := map[*Term]bool{}
	collectBVars(body, fv)
	if len(pats) == 1 {
		for _, t := range pats[0] {
			collectBVars(t, fv)
		}
	}
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		m := map[*Term]bool{}
		for _, t := range p {
			collectBVars(t, m)
		}
		ok := true
		for _, v := range vs {
			if !m[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	// canonical names of the bound variables make equal formulas identical terms
	d := body.qd
	for _, p := range ps {
		for _, t := range p {
			if t.qd > d {
				d = t.qd
			}
		}
	}
	ren := map[*Term]*Term{}
	for i, v := range vs {
		if c := mkTerm(&Term{Op: "bvar", Name: fmt.Sprintf("q?%d_%d", d+1, i), Sort: v.Sort}); c != v {
			ren[v] = c
			vs[i] = c
		}
	}
	if len(ren) > 0 {
		body = substTerm(body, ren)
		qs := make([][]*Term, len(ps))
		for i, p := range ps {
			for _, t := range p {
				qs[i] = append(qs[i], substTerm(t, ren))
			}
		}
		ps = qs
	}
	return mkTerm(&Term{Op: "forall", Sort: "Bool", Args: []*Term{body}, Vars: vs, Pats: ps})
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Not(Forall(vars, Not(body), pats...))
}

func collectBVars(t *Term, m map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "bvar" {
			m[t] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// substTerm replaces terms (typically bvars or symbols) in t.
func substTerm(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, func(x *Term) *Term { return rec(x) })
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Implies(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "<=":
		if t.Args[0].Sort == "Int" {
			return Le(as[0], as[1])
		}
	case "+":
		if t.Sort == "Int" {
			return Add(as...)
		}
	case "*":
		if t.Sort == "Int" {
			return Mul(as[0], as[1])
		}
	case "div":
		return iDiv(as[0], as[1])
	case "mod":
		return iMod(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "forall":
		var ps [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return Forall(t.Vars, as[0], ps...)
	}
	return mkTerm(&Term{Op: t.Op, Sort: t.Sort, Name: t.Name, N: t.N, Args: as, Vars: t.Vars, Pats: t.Pats})
}

// withRange registers a range fact on an atom.
func withRange(t *Term, lo, hi *big.Int) *Term {
	if t.lo == nil && t.hi == nil && t.Op != "int" {
		switch t.Op {
		case "sym", "select":
			if !t.bound {
				t.lo, t.hi = lo, hi
			}
		default:
			if _, isuf := ufDecls[t.Op]; isuf && !t.bound {
				t.lo, t.hi = lo, hi
			}
		}
	}
	return t
}

// ---- UF declarations ----
type ufDecl struct {
	args []string
	ret  string
}

var ufDecls = map[string]ufDecl{}

func UF(name, ret string, args ...*Term) *Term {
	name = cleanName(name)
	if _, ok := ufDecls[name]; !ok {
		d := ufDecl{ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.Sort)
		}
		ufDecls[name] = d
	} else {
		d := ufDecls[name]
		for i, a := range args {
			if d.args[i] != a.Sort {
				panic(fmt.Sprintf("UF %s arg %d sort %s, want %s", name, i, a.Sort, d.args[i]))
			}
		}
	}
	if len(args) == 0 {
		return mkTerm(&Term{Op: "sym", Name: name, Sort: ret})
	}
	return App(name, ret, args...)
}

func showTerm(t *Term) string {
	var sb strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 400 {
			sb.WriteString("…")
			return
		}
		switch {
		case t.Op == "sym" || t.Op == "bvar":
			sb.WriteString(t.Name)
		case t.Op == "int":
			sb.WriteString(t.N.String())
		case t.Op == "bv":
			sb.WriteString("#" + t.N.String())
		case len(t.Args) == 0:
			sb.WriteString(t.Op)
		default:
			sb.WriteString("(" + t.Op)
			for _, v := range t.Vars {
				sb.WriteString(" " + v.Name)
			}
			for _, a := range t.Args {
				sb.WriteByte(' ')
				rec(a)
			}
			sb.WriteByte(')')
		}
	}
	rec(t)
	return sb.String()
}
