package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// BVI is a spec integer in bit-vector mode: exact, with its own width.
type BVI struct {
	t      *Term
	w      int
	signed bool
}

// SV is a spec value with its Go type (nil for spec-only sorts).
type SV struct {
	V Val
	T types.Type
}

type SpecCtx struct {
	v         *Verifier
	fr        *Frame
	st        *State
	entry     *State
	pre       *State // loop entry (inside invariants)
	binds     map[string]SV
	result    []SV
	inLoop    bool // names denote current local cells
	entryOnly bool
	depth     int
	tyBind    map[string]types.Type
	errName   string
}

type specErr struct{ msg string }

func (c *SpecCtx) fail(e *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", e.File, e.Line, fmt.Sprintf(f, a...))})
}

func (v *Verifier) specCtx(fr *Frame, st *State) *SpecCtx {
	return &SpecCtx{v: v, fr: fr, st: st, entry: fr.entry, binds: map[string]SV{}}
}

func (c *SpecCtx) with(st *State) *SpecCtx {
	n := *c
	n.st = st
	return &n
}
func (c *SpecCtx) bind(b map[string]SV) *SpecCtx {
	n := *c
	n.binds = map[string]SV{}
	for k, x := range c.binds {
		n.binds[k] = x
	}
	for k, x := range b {
		n.binds[k] = x
	}
	return &n
}

func (c *SpecCtx) evalBool(e *Expr) *Term {
	x := c.eval(e)
	t, ok := x.V.(*Term)
	if !ok || t.Sort != "Bool" {
		c.fail(e, "boolean expected")
	}
	return t
}

func (c *SpecCtx) mkNum(n *big.Int) SV {
	if bvMode {
		w := n.BitLen() + 1
		return SV{V: &BVI{BV(n, w), w, n.Sign() < 0}}
	}
	return SV{V: IntB(n)}
}

// num views a spec value as an integer.
func (c *SpecCtx) num(x SV, e *Expr) Val {
	switch t := x.V.(type) {
	case *BVI:
		return t
	case *Term:
		if t.Sort == "Int" {
			if bvMode {
				if t.isInt() {
					return c.mkNum(t.N).V
				}
			}
			return t
		}
		if isBV(t.Sort) {
			ii, ok := intInfoOf(x.T)
			if !ok {
				ii = intInfo{bvWidth(t.Sort), false}
			}
			return &BVI{t, ii.bits, ii.signed}
		}
	}
	c.fail(e, "integer expected, have %T", x.V)
	return nil
}

func (b *BVI) ext(w int) *Term { return bvExt(b.t, w, b.signed) }

// to brings two exact integers to one signed width.
func bvUnify(a, b *BVI, extra int) (*Term, *Term, int, bool) {
	if a.signed == b.signed {
		w := max(a.w, b.w) + extra
		return a.ext(w), b.ext(w), w, a.signed
	}
	wa, wb := a.w, b.w
	if !a.signed {
		wa++
	}
	if !b.signed {
		wb++
	}
	w := max(wa, wb) + extra
	return a.ext(w), b.ext(w), w, true
}

func (c *SpecCtx) arith(op string, x, y Val, e *Expr) SV {
	if a, ok := x.(*BVI); ok {
		b, ok := y.(*BVI)
		if !ok {
			c.fail(e, "mixed integer modes")
		}
		switch op {
		case "+":
			p, q, w, s := bvUnify(a, b, 1)
			return SV{V: &BVI{bvBin("bvadd", p, q), w, s}}
		case "-":
			p, q, w, _ := bvUnify(a, b, 1)
			return SV{V: &BVI{bvBin("bvsub", p, q), w, true}}
		case "*":
			s := a.signed || b.signed
			w := a.w + b.w
			if s {
				w++
			}
			return SV{V: &BVI{bvBin("bvmul", a.ext(w), b.ext(w)), w, s}}
		case "/", "%":
			// Euclidean, for a positive constant power of two divisor only
			if b.t.Op == "bv" {
				n := b.t.N
				k := n.BitLen() - 1
				if n.Sign() > 0 && n.Cmp(pow2(k)) == 0 {
					if op == "%" {
						if k >= a.w {
							if !a.signed {
								return SV{V: a}
							}
							return SV{V: &BVI{bvExt(a.ext(k), k, false), k, false}}
						}
						if k == 0 {
							return c.mkNum(big.NewInt(0))
						}
						return SV{V: &BVI{bvExtract(a.t, k-1, 0), k, false}}
					}
					if k >= a.w {
						if !a.signed {
							return c.mkNum(big.NewInt(0))
						}
						return SV{V: &BVI{bvBin("bvashr", a.t, BV(big.NewInt(int64(a.w-1)), a.w)), a.w, true}}
					}
					return SV{V: &BVI{bvExtract(a.t, a.w-1, k), a.w - k, a.signed}}
				}
			}
		}
		c.fail(e, "operator %s in bit-vector mode", op)
	}
	a, b := x.(*Term), y.(*Term)
	switch op {
	case "+":
		return SV{V: Add(a, b)}
	case "-":
		return SV{V: Sub(a, b)}
	case "*":
		return SV{V: Mul(a, b)}
	case "/":
		return SV{V: iDiv(a, b)}
	case "%":
		return SV{V: iMod(a, b)}
	}
	c.fail(e, "operator %s", op)
	return SV{}
}

func (c *SpecCtx) cmpNum(op string, x, y Val) *Term {
	if a, ok := x.(*BVI); ok {
		b := y.(*BVI)
		p, q, _, s := bvUnify(a, b, 0)
		sg := "u"
		if s {
			sg = "s"
		}
		switch op {
		case "==":
			return Eq(p, q)
		case "!=":
			return Not(Eq(p, q))
		case "<":
			return bvCmp("bv"+sg+"lt", p, q)
		case "<=":
			return bvCmp("bv"+sg+"le", p, q)
		case ">":
			return bvCmp("bv"+sg+"lt", q, p)
		case ">=":
			return bvCmp("bv"+sg+"le", q, p)
		}
	}
	a, b := x.(*Term), y.(*Term)
	switch op {
	case "==":
		return Eq(a, b)
	case "!=":
		return Not(Eq(a, b))
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Gt(a, b)
	case ">=":
		return Ge(a, b)
	}
	panic(op)
}

func isNum(x SV) bool {
	switch t := x.V.(type) {
	case *BVI:
		return true
	case *Term:
		if t.Sort == "Int" {
			return true
		}
		return isBV(t.Sort)
	}
	return false
}

// specSort maps a spec type name to an SMT sort and, if it has one, a Go type.
func (c *SpecCtx) specType(name string, e *Expr) (string, types.Type) {
	switch name {
	case "int", "ref":
		return "Int", nil
	case "bool":
		return "Bool", nil
	case "str":
		return "Str", nil
	case "any":
		return "Any", nil
	case "fn":
		return "Func", nil
	case "seq", "seq[ref]", "seq[int]":
		return arrSort("Int", "Int"), nil
	case "bag":
		return "Bag", nil
	}
	if strings.HasPrefix(name, "seq[") {
		s, t := c.specType(name[4:len(name)-1], e)
		return arrSort("Int", s), t
	}
	if strings.HasPrefix(name, "set[") {
		s, t := c.specType(name[4:len(name)-1], e)
		return arrSort(s, "Bool"), t
	}
	if i := strings.IndexByte(name, '['); i > 0 {
		if f := closureShapes[name[:i]]; f != "" {
			return "Func", c.closureType(f, name[i+1:len(name)-1], e)
		}
	}
	if strings.HasPrefix(name, "map[") {
		i := strings.Index(name, ",")
		a, _ := c.specType(name[4:i], e)
		b, _ := c.specType(name[i+1:len(name)-1], e)
		return arrSort(a, b), nil
	}
	if len(name) > 4 && name[:4] == "abs:" {
		return name[4:], nil
	}
	t := c.goType(name)
	if t == nil {
		// abstract spec sort
		return "S_" + name, nil
	}
	if st := structOf(t); st != nil && !isExternalStruct(t) && st.NumFields() != 1 {
		return "", t // composite
	}
	s := scalarSort(t)
	return s, t
}

// closureShapes are the function types the specifications speak of, as parameters -> result over E.
var closureShapes = map[string]string{"pred": "E->Bool", "pred2": "EE->Bool", "map1": "E->E", "bin": "EE->E", "keyf": "E->any", "ord1": "E->Ordering", "cmp2": "EE->Ordering"}

func (c *SpecCtx) closureType(shape, elem string, e *Expr) types.Type {
	_, et := c.specType(elem, e)
	if et == nil {
		c.fail(e, "element type %s is not known", elem)
	}
	ps, r, _ := strings.Cut(shape, "->")
	var vs []*types.Var
	for range ps {
		vs = append(vs, types.NewVar(0, nil, "", et))
	}
	var rt types.Type
	switch r {
	case "E":
		rt = et
	case "any":
		rt = types.NewInterfaceType(nil, nil)
	default:
		rt = c.v.P.pkg.Scope().Lookup(r).Type()
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), types.NewTuple(types.NewVar(0, nil, "", rt)), false)
}

// inferTV determines the type variables of a spec function from an argument.
func (c *SpecCtx) inferTV(u *UFSpec, pat string, x SV, tb map[string]types.Type) {
	for _, n := range u.TV {
		if tb[n] != nil || x.T == nil {
			continue
		}
		switch {
		case pat == n, pat == "seq["+n+"]", pat == "set["+n+"]", strings.HasPrefix(pat, "map[") && strings.HasSuffix(pat, ","+n+"]"):
			tb[n] = x.T
		case strings.HasSuffix(pat, "["+n+"]"):
			if sig, ok := under(x.T).(*types.Signature); ok && sig.Params().Len() > 0 {
				tb[n] = sig.Params().At(0).Type()
			}
		}
	}
}

// goType resolves a type name in the context of the function (type parameters by name).
func (c *SpecCtx) goType(name string) types.Type {
	if strings.HasPrefix(name, "*") {
		if t := c.goType(name[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(name, "[]") {
		if t := c.goType(name[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if t, ok := c.tyBind[name]; ok {
		return t
	}
	var env tenv
	if c.fr != nil {
		env = c.fr.env
		tps := c.fr.fn.TypeParams()
		f := c.fr.fn
		for (tps == nil || tps.Len() == 0) && f.Parent() != nil {
			f = f.Parent()
			tps = f.TypeParams()
		}
		if tps != nil {
			for i := 0; i < tps.Len(); i++ {
				if tps.At(i).Obj().Name() == name {
					return subst(tps.At(i), env)
				}
			}
		}
	}
	base := name
	var args []types.Type
	if i := strings.IndexByte(name, '['); i > 0 {
		base = name[:i]
		for _, a := range splitTop(name[i+1 : len(name)-1]) {
			t := c.goType(a)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
	}
	for _, b := range types.Typ {
		if b.Name() == base {
			return b
		}
	}
	o := c.v.P.pkg.Scope().Lookup(base)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	if len(args) > 0 {
		t, err := types.Instantiate(tctx, tn.Type(), args, false)
		if err != nil {
			panic(err)
		}
		return t
	}
	return tn.Type()
}

func splitTop(s string) []string {
	var out []string
	d, a := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			d++
		case ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[a:i])
				a = i + 1
			}
		}
	}
	return append(out, s[a:])
}

func (c *SpecCtx) name(e *Expr) SV {
	n := e.Name
	if x, ok := c.binds[n]; ok {
		return x
	}
	switch n {
	case "true":
		return SV{V: tTrue}
	case "false":
		return SV{V: tFalse}
	case "nil":
		return SV{V: Int(0)}
	case "result":
		if len(c.result) == 1 {
			return c.result[0]
		}
		if len(c.result) > 1 {
			tv := TupleV{}
			for _, r := range c.result {
				tv = append(tv, r)
			}
			return SV{V: tv}
		}
		c.fail(e, "no result here")
	case "next":
		return SV{V: c.st.next}
	}
	if c.fr != nil {
		if c.inLoop {
			if l, ok := c.fr.cells[n]; ok {
				if cell := c.st.cells[l.cell]; cell != nil && cell.typ != nil {
					if g, ok := ghostSorts[typeKey(cell.typ)]; ok {
						_ = g
						return SV{V: cell.val}
					}
					return SV{V: c.st.loadLoc(l), T: cell.typ}
				}
				c.fail(e, "local %s not live", n)
			}
		}
		if x, ok := c.fr.ghost[n]; ok {
			return SV{V: x}
		}
		if x, ok := c.fr.names[n]; ok {
			return SV{V: x, T: c.paramType(n)}
		}
		if c.fr.spec != nil {
			for _, l := range c.fr.spec.Lets {
				if l.Name == n {
					return c.eval(l.E)
				}
			}
		}
	}
	if m := c.v.P.ss.macros[n]; m != nil && len(m.Params) == 0 {
		return c.eval(m.E)
	}
	if k, ok := c.v.P.pkg.Scope().Lookup(n).(*types.Const); ok {
		if b, ok := new(big.Int).SetString(k.Val().ExactString(), 10); ok {
			return c.mkNum(b)
		}
	}
	if u := c.v.P.ss.ufs[n]; u != nil && len(u.Args) == 0 {
		return SV{V: UF(n, c.mustSort(u.Ret, e))}
	}
	c.fail(e, "unknown name %s", n)
	return SV{}
}

func (c *SpecCtx) mustSort(n string, e *Expr) string {
	s, _ := c.specType(n, e)
	if s == "" {
		c.fail(e, "composite spec type %s", n)
	}
	return s
}

func (c *SpecCtx) paramType(n string) types.Type {
	for i, t := range c.fr.types {
		if c.fr.spec != nil && i < len(c.fr.spec.Params) && c.fr.spec.Params[i] == n {
			return subst(t, c.fr.env)
		}
	}
	for i, p := range c.fr.fn.Params {
		if p.Name() == n || (c.fr.spec != nil && i < len(c.fr.spec.Params) && c.fr.spec.Params[i] == n) {
			return subst(p.Type(), c.fr.env)
		}
	}
	return nil
}

func (c *SpecCtx) deref(x SV, e *Expr) SV {
	el := derefType(x.T)
	if el == nil {
		c.fail(e, "dereference of non-pointer")
	}
	l := asLoc(x.V, x.T)
	return SV{V: c.load(l), T: el}
}

// load reads memory; terms mentioning bound variables record no facts.
func (c *SpecCtx) load(l *LocV) Val { return c.st.loadLoc(l) }

func (c *SpecCtx) eval(e *Expr) SV {
	switch e.Op {
	case "int":
		return c.mkNum(e.N)
	case "str":
		return SV{V: strLit(e.Name), T: types.Typ[types.String]}
	case "name":
		return c.name(e)
	case "old":
		n := *c
		n.st = c.entry
		n.inLoop = false
		return n.eval(e.Args[0])
	case "pre":
		if c.pre == nil {
			c.fail(e, "pre() outside a loop invariant")
		}
		n := *c
		n.st = c.pre
		return n.eval(e.Args[0])
	case "field":
		return c.field(e)
	case "strslice":
		x, lo, hi := c.eval(e.Args[0]), c.eval(e.Args[1]), c.eval(e.Args[2])
		s, ok := x.V.(*Term)
		if !ok || s.Sort != "Str" {
			c.fail(e, "slice of a non-string")
		}
		return SV{V: UF("str_sub", "Str", s, c.num(lo, e).(*Term), c.num(hi, e).(*Term)), T: x.T}
	case "index":
		return c.index(e)
	case "un":
		x := c.eval(e.Args[0])
		switch e.Name {
		case "!":
			return SV{V: Not(x.V.(*Term))}
		case "-":
			if t, ok := x.V.(*Term); ok && strings.HasPrefix(t.Sort, "Float") {
				return SV{V: App("fp.neg", t.Sort, t), T: x.T}
			}
			return c.arith("-", c.mkNum(big.NewInt(0)).V, c.num(x, e), e)
		case "*":
			return c.deref(x, e)
		}
	case "bin":
		return c.bin(e)
	case "ite":
		k := c.evalBool(e.Args[0])
		a, b := c.eval(e.Args[1]), c.eval(e.Args[2])
		return c.ite(k, a, b, e)
	case "forall", "exists":
		return c.quant(e)
	case "call":
		return c.callSpec(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return SV{}
}

func (c *SpecCtx) ite(k *Term, a, b SV, e *Expr) SV {
	if isNum(a) && isNum(b) && (a.T == nil || b.T == nil || bvMode) {
		x, y := c.num(a, e), c.num(b, e)
		if p, ok := x.(*BVI); ok {
			q := y.(*BVI)
			u, w, n, s := bvUnify(p, q, 0)
			return SV{V: &BVI{Ite(k, u, w), n, s}}
		}
		return SV{V: Ite(k, x.(*Term), y.(*Term))}
	}
	t := a.T
	if t == nil {
		t = b.T
	}
	if t == nil {
		return SV{V: Ite(k, a.V.(*Term), b.V.(*Term))}
	}
	m, ok := mergeVals(c.st, c.st, k, a.V, b.V, t)
	if !ok {
		c.fail(e, "if-then-else on incompatible values")
	}
	return SV{V: m, T: t}
}

func (c *SpecCtx) bin(e *Expr) SV {
	switch e.Name {
	case "==>", "&&", "||", "<==>":
		a := c.evalBool(e.Args[0])
		if e.Name == "&&" && a.Op == "false" {
			return SV{V: tFalse}
		}
		if e.Name == "==>" && a.Op == "false" {
			return SV{V: tTrue}
		}
		if e.Name == "||" && a.Op == "true" {
			return SV{V: tTrue}
		}
		b := c.evalBool(e.Args[1])
		switch e.Name {
		case "==>":
			return SV{V: Implies(a, b)}
		case "&&":
			return SV{V: And(a, b)}
		case "||":
			return SV{V: Or(a, b)}
		}
		return SV{V: Eq(a, b)}
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	switch e.Name {
	case "+", "-", "*", "/", "%":
		if t, ok := a.V.(*Term); ok && t.Sort == "Str" && e.Name == "+" {
			return SV{V: strCat(t, b.V.(*Term)), T: a.T}
		}
		if t, ok := a.V.(*Term); ok && strings.HasPrefix(t.Sort, "Float") {
			op := map[string]string{"+": "fp.add", "-": "fp.sub", "*": "fp.mul", "/": "fp.div"}[e.Name]
			return SV{V: App(op, t.Sort, rne, t, b.V.(*Term)), T: a.T}
		}
		return c.arith(e.Name, c.num(a, e), c.num(b, e), e)
	case "^":
		x, xok := a.V.(*Term)
		y, yok := b.V.(*Term)
		if p, ok := a.V.(*BVI); ok && p.t.Op == "bv" {
			x, xok = IntB(p.t.N), true
		}
		if p, ok := b.V.(*BVI); ok && p.t.Op == "bv" {
			y, yok = IntB(p.t.N), true
		}
		if xok && yok && x.isInt() && y.isInt() {
			return c.mkNum(new(big.Int).Exp(x.N, y.N, nil))
		}
		c.fail(e, "power of non-constants")
	case "<", "<=", ">", ">=":
		if t, ok := a.V.(*Term); ok && strings.HasPrefix(t.Sort, "Float") {
			op := map[string]string{"<": "fp.lt", "<=": "fp.leq", ">": "fp.gt", ">=": "fp.geq"}[e.Name]
			return SV{V: App(op, "Bool", t, b.V.(*Term))}
		}
		if p, ok := a.V.(*Term); ok && p.Sort == "Str" {
			q := b.V.(*Term)
			switch e.Name {
			case "<":
				return SV{V: c.v.strLess(p, q)}
			case ">":
				return SV{V: c.v.strLess(q, p)}
			case "<=":
				return SV{V: Not(c.v.strLess(q, p))}
			}
			return SV{V: Not(c.v.strLess(p, q))}
		}
		return SV{V: c.cmpNum(e.Name, c.num(a, e), c.num(b, e))}
	case "==", "!=":
		r := c.equal(a, b, e)
		if e.Name == "!=" {
			r = Not(r)
		}
		return SV{V: r}
	}
	c.fail(e, "operator %s", e.Name)
	return SV{}
}

// equal is structural equality (floats: identical values).
func (c *SpecCtx) equal(a, b SV, e *Expr) *Term {
	if isNum(a) && isNum(b) {
		return c.cmpNum("==", c.num(a, e), c.num(b, e))
	}
	switch x := a.V.(type) {
	case *StructV:
		y, ok := b.V.(*StructV)
		if !ok {
			c.fail(e, "comparison of struct with %T", b.V)
		}
		s := structOf(a.T)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, c.equal(SV{x.F[i], s.Field(i).Type()}, SV{y.F[i], s.Field(i).Type()}, e))
		}
		return And(cs...)
	case *SliceV:
		y, ok := b.V.(*SliceV)
		if !ok {
			c.fail(e, "comparison of slice with %T", b.V)
		}
		return And(Eq(x.Arr, y.Arr), Eq(x.Off, y.Off), Eq(x.Len, y.Len), Eq(x.Cap, y.Cap))
	case *LocV:
		if t, ok := b.V.(*Term); ok && t.isInt() && t.N.Sign() == 0 {
			r := c.st.resolve(x)
			if r.kind == "heap" && len(r.path) == 0 {
				return Eq(r.ref, t)
			}
			return tFalse
		}
	case *IfaceV:
		if t, ok := b.V.(*Term); ok && t.isInt() { // == nil
			return Bool(x.Dyn == nil)
		}
	case *Term:
		if x.Sort == "Any" {
			if t, ok := b.V.(*Term); ok && t.isInt() {
				return Eq(x, UF("any_nil", "Any"))
			}
		}
		if x.Sort == "Func" {
			if t, ok := b.V.(*Term); ok && t.isInt() {
				return Eq(x, UF("nil_Func", "Func"))
			}
		}
		if t, ok := b.V.(*IfaceV); ok && x.isInt() {
			return Bool(t.Dyn == nil)
		}
	}
	if y, ok := b.V.(*LocV); ok {
		if t, ok := a.V.(*Term); ok && t.isInt() && t.N.Sign() == 0 {
			return c.equal(SV{V: y, T: b.T}, a, e)
		}
	}
	ta, tb := a.T, b.T
	p, q := c.st.scalar(a.V, ta), c.st.scalar(b.V, tb)
	if p.Sort != q.Sort {
		c.fail(e, "comparison of %s with %s", p.Sort, q.Sort)
	}
	return Eq(p, q)
}

func (c *SpecCtx) field(e *Expr) SV {
	x := c.eval(e.Args[0])
	if tv, ok := x.V.(TupleV); ok {
		var i int
		fmt.Sscan(e.Name, &i)
		return tv[i].(SV)
	}
	if x.T == nil {
		c.fail(e, "field %s of untyped value", e.Name)
	}
	if derefType(x.T) != nil {
		el := derefType(x.T)
		s := structOf(el)
		if s == nil {
			c.fail(e, "field %s of %s", e.Name, typeKey(x.T))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == e.Name {
				l := *asLoc(x.V, x.T)
				l.path = append(append([]int{}, l.path...), i)
				l.typ = s.Field(i).Type()
				return SV{V: c.load(&l), T: s.Field(i).Type()}
			}
		}
		if h, _, gt := c.ghostField(el, e.Name); h != "" {
			r := c.st.scalar(x.V, x.T)
			return SV{V: Select(c.st.getHeap(h, heapSorts[h]), r), T: gt}
		}
		c.fail(e, "no field %s in %s", e.Name, typeKey(el))
	}
	s := structOf(x.T)
	if s == nil {
		c.fail(e, "field %s of %s", e.Name, typeKey(x.T))
	}
	sv, ok := x.V.(*StructV)
	if !ok {
		c.fail(e, "opaque struct %s", typeKey(x.T))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.Name {
			return SV{V: sv.F[i], T: s.Field(i).Type()}
		}
	}
	c.fail(e, "no field %s in %s", e.Name, typeKey(x.T))
	return SV{}
}

func (c *SpecCtx) index(e *Expr) SV {
	x := c.eval(e.Args[0])
	iv := c.eval(e.Args[1])
	switch s := x.V.(type) {
	case *SliceV:
		i := c.num(iv, e)
		it, ok := i.(*Term)
		if !ok {
			c.fail(e, "slice index in bit-vector mode")
		}
		et := under(x.T).(*types.Slice).Elem()
		l := &LocV{kind: "elem", arr: s.Arr, idx: Add(s.Off, it), base: et, typ: et}
		return SV{V: c.load(l), T: et}
	case *Term:
		if s.Sort == "Str" {
			return SV{V: UF("str_at", "Int", s, c.num(iv, e).(*Term))}
		}
		if strings.HasPrefix(s.Sort, "(Array") {
			is, es := splitArr(s.Sort)
			it := c.st.scalar(iv.V, iv.T)
			if it.Sort != is {
				c.fail(e, "index sort %s, want %s", it.Sort, is)
			}
			var t types.Type
			if x.T != nil && es != "Bool" {
				t = x.T
			}
			return SV{V: Select(s, it), T: t}
		}
	}
	c.fail(e, "index of %T", x.V)
	return SV{}
}

func (c *SpecCtx) bvar(g GhostParam, e *Expr) SV {
	s, t := c.specType(g.Type, e)
	if s == "" {
		// composite Go type: a tuple of bound leaves
		c.fail(e, "quantification over composite type %s", g.Type)
	}
	b := freshBVar(g.Name, s)
	return SV{V: b, T: t}
}

func (c *SpecCtx) quant(e *Expr) SV {
	return SV{V: c.quantBody(e, func(cc *SpecCtx) *Term { return cc.evalBool(e.Args[0]) })}
}

func (c *SpecCtx) quantBody(e *Expr, f func(*SpecCtx) *Term) *Term {
	nb := map[string]SV{}
	var vars []*Term
	var ranges []*Term
	cc := c
	for i, g := range e.Vars {
		x := c.bvar(g, e)
		nb[g.Name] = x
		vars = append(vars, x.V.(*Term))
		cc = c.bind(nb)
		if e.Lo[2*i] != nil {
			lo := cc.num(cc.eval(e.Lo[2*i]), e).(*Term)
			hi := cc.num(cc.eval(e.Lo[2*i+1]), e).(*Term)
			ranges = append(ranges, Le(lo, x.V.(*Term)), Lt(x.V.(*Term), hi))
		} else if x.T != nil {
			if ii, ok := intInfoOf(x.T); ok && !bvMode {
				ranges = append(ranges, Le(IntB(ii.min()), x.V.(*Term)), Le(x.V.(*Term), IntB(ii.max())))
			}
		}
	}
	body := f(cc)
	var pats [][]*Term
	for _, ps := range e.Pats {
		var q []*Term
		for _, p := range ps {
			x := cc.eval(p)
			t := cc.st.scalar(x.V, x.T)
			for t.Op == "and" { // has(m, k) is guarded by m != nil
				for _, a := range t.Args {
					if a.bound {
						t = a
						break
					}
				}
				if !t.bound {
					break
				}
			}
			q = append(q, t)
		}
		pats = append(pats, q)
	}
	if e.Op == "forall" {
		return Forall(vars, Implies(And(ranges...), body), pats...)
	}
	return Exists(vars, And(append(ranges, body)...), pats...)
}

func (c *SpecCtx) callSpec(e *Expr) SV {
	arg := func(i int) SV {
		if i >= len(e.Args) {
			c.fail(e, "missing argument of %s", e.Name)
		}
		return c.eval(e.Args[i])
	}
	iarg := func(i int) *Term {
		n := c.num(arg(i), e)
		t, ok := n.(*Term)
		if !ok {
			c.fail(e, "integer argument in bit-vector mode")
		}
		return t
	}
	if m := c.v.P.ss.macros[e.Name]; m != nil {
		if len(m.Params) != len(e.Args) {
			c.fail(e, "macro %s takes %d arguments", e.Name, len(m.Params))
		}
		if c.depth > 60 {
			c.fail(e, "macro recursion")
		}
		b := map[string]SV{}
		for i, p := range m.Params {
			b[p] = c.eval(e.Args[i])
		}
		n := *c
		n.depth++
		// macro bodies see only their parameters plus globals
		n.binds = b
		return n.eval(m.E)
	}
	if u := c.v.P.ss.ufs[e.Name]; u != nil {
		var ts []*Term
		for i := range u.Args {
			x := arg(i)
			if isNum(x) && !bvMode {
				ts = append(ts, c.num(x, e).(*Term))
			} else {
				ts = append(ts, c.st.scalar(x.V, x.T))
			}
		}
		name := u.Name
		rc := c
		if len(u.TV) > 0 {
			tb := map[string]types.Type{}
			for i := range u.Args {
				c.inferTV(u, u.Args[i], arg(i), tb)
			}
			for _, n := range u.TV {
				if tb[n] == nil {
					c.fail(e, "type variable %s of %s not determined", n, u.Name)
				}
				name += "_" + cleanName(typeKey(tb[n]))
			}
			c.v.polyAxioms(u, name, tb)
			n := *c
			n.tyBind = tb
			rc = &n
		}
		rs, rt := rc.specType(u.Ret, e)
		return SV{V: UF(name, rs, ts...), T: rt}
	}
	switch e.Name {
	case "len":
		x := arg(0)
		switch s := x.V.(type) {
		case *SliceV:
			return SV{V: s.Len}
		case *Term:
			if s.Sort == "Str" {
				return SV{V: strLen(s)}
			}
			if mt, ok := under(x.T).(*types.Map); ok {
				return SV{V: c.v.mapLen(c.st, mt, s)}
			}
		}
		c.fail(e, "len of %T", x.V)
	case "cap":
		return SV{V: arg(0).V.(*SliceV).Cap}
	case "arr":
		return SV{V: arg(0).V.(*SliceV).Arr}
	case "off":
		return SV{V: arg(0).V.(*SliceV).Off}
	case "deref":
		return c.deref(arg(0), e)
	case "ref":
		x := arg(0)
		return SV{V: c.st.scalar(x.V, x.T)}
	case "fheap": // fheap(p, F): the heap array of field F of the objects p points to
		x := arg(0)
		el := derefType(x.T)
		if el == nil || structOf(el) == nil {
			c.fail(e, "fheap of a non-pointer")
		}
		st := structOf(el)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == e.Args[1].Name {
				lv := leavesOf(f.Type())
				if len(lv) != 1 {
					c.fail(e, "fheap of a composite field")
				}
				return SV{V: c.st.getHeap(heapName(el, "."+f.Name()+lv[0].path), arrSort("Int", lv[0].sort)), T: f.Type()}
			}
		}
		c.fail(e, "no field %s", e.Args[1].Name)
	case "pair": // pair(a, b): the Pair of a and b
		a, b := arg(0), arg(1)
		if a.T == nil || b.T == nil {
			c.fail(e, "pair of untyped values")
		}
		t, err := types.Instantiate(tctx, c.v.P.pkg.Scope().Lookup("Pair").Type(), []types.Type{a.T, b.T}, false)
		if err != nil {
			c.fail(e, "pair: %v", err)
		}
		return SV{V: &StructV{F: []Val{a.V, b.V}}, T: t}
	case "like": // like(p, r): view the integer r as a pointer of the type of p
		return SV{V: c.st.scalar(arg(1).V, nil), T: arg(0).T}
	case "asref": // asref(r, Type): view an integer as *Type
		t := c.goType(e.Args[1].typeText())
		if t == nil {
			c.fail(e, "unknown type")
		}
		return SV{V: c.st.scalar(arg(0).V, nil), T: types.NewPointer(t)}
	case "dyn":
		x := arg(0)
		iv, ok := x.V.(*IfaceV)
		if !ok || iv.Dyn == nil {
			c.fail(e, "dynamic type of interface value is not known")
		}
		t := types.Unalias(iv.Dyn)
		if len(e.Args) == 1 {
			return SV{V: iv.V, T: iv.Dyn}
		}
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Name() != e.Args[1].Name {
			c.fail(e, "dynamic type is %s", typeKey(iv.Dyn))
		}
		return SV{V: iv.V, T: iv.Dyn}
	case "dom":
		x := arg(0)
		mt, ok := under(x.T).(*types.Map)
		if !ok {
			c.fail(e, "dom of non-map")
		}
		m := c.st.scalar(x.V, x.T)
		return SV{V: c.st.dom(mt, m), T: mt.Key()}
	case "vals": // the values of a map as an array over the keys
		x := arg(0)
		mt, ok := under(x.T).(*types.Map)
		if !ok {
			c.fail(e, "vals of non-map")
		}
		lv := leavesOf(mt.Elem())
		if len(lv) != 1 {
			c.fail(e, "vals of a map with composite values")
		}
		m := c.st.scalar(x.V, x.T)
		return SV{V: Select(c.st.getHeap(mapVal(mt, lv[0].path), arrSort("Int", arrSort(scalarSort(mt.Key()), lv[0].sort))), m), T: mt.Elem()}
	case "has":
		x := arg(0)
		mt, ok := under(x.T).(*types.Map)
		if !ok {
			c.fail(e, "has on non-map")
		}
		m := c.st.scalar(x.V, x.T)
		k := arg(1)
		return SV{V: And(Not(Eq(m, Int(0))), Select(c.st.dom(mt, m), c.st.scalar(k.V, k.T)))}
	case "at":
		x := arg(0)
		mt, ok := under(x.T).(*types.Map)
		if !ok {
			c.fail(e, "at on non-map")
		}
		m := c.st.scalar(x.V, x.T)
		k := arg(1)
		ts := c.st.mapRaw(mt, m, c.st.scalar(k.V, k.T))
		return SV{V: build(mt.Elem(), ts), T: mt.Elem()}
	case "member":
		k := arg(1)
		return SV{V: Select(arg(0).V.(*Term), c.st.scalar(k.V, k.T))}
	case "card":
		return SV{V: cardUF(arg(0).V.(*Term))}
	case "store":
		a := arg(0).V.(*Term)
		i, x := arg(1), arg(2)
		return SV{V: Store(a, c.st.scalar(i.V, i.T), c.st.scalar(x.V, x.T)), T: arg(0).T}
	case "emptyset":
		s := c.mustSort(e.Args[0].typeText(), e)
		_, t := c.specType(e.Args[0].typeText(), e)
		return SV{V: ConstArr(arrSort(s, "Bool"), tFalse), T: t}
	case "cmp":
		a, b := arg(0), arg(1)
		return SV{V: traitCmp(c.st.scalar(a.V, a.T), c.st.scalar(b.V, b.T))}
	case "eq":
		a, b := arg(0), arg(1)
		return SV{V: traitEq(c.st.scalar(a.V, a.T), c.st.scalar(b.V, b.T))}
	case "deepeq":
		a, b := arg(0), arg(1)
		return SV{V: deepEq(c.st.scalar(a.V, a.T), c.st.scalar(b.V, b.T))}
	case "clone":
		a := arg(0)
		t := c.st.scalar(a.V, a.T)
		return SV{V: UF("clone_"+t.Sort, t.Sort, t), T: a.T}
	case "display", "tostring":
		a := arg(0)
		t := c.st.scalar(a.V, a.T)
		return SV{V: UF(e.Name+"_"+t.Sort, "Str", t)}
	case "zero":
		t := c.goType(e.Args[0].typeText())
		if t == nil {
			c.fail(e, "unknown type")
		}
		return SV{V: zeroOf(t), T: t}
	case "fresh":
		x := arg(0)
		r := c.st.scalar(x.V, x.T)
		return SV{V: And(Le(c.entry.next, r), Lt(r, c.st.next))}
	case "allocated":
		x := arg(0)
		r := c.st.scalar(x.V, x.T)
		return SV{V: And(Lt(Int(0), r), Lt(r, c.st.next))}
	case "app":
		f := arg(0)
		ft := f.T
		sig, ok := under(ft).(*types.Signature)
		if !ok {
			c.fail(e, "app of non-function")
		}
		ftm := c.st.scalar(f.V, ft)
		name := "app"
		var ts []*Term
		for i := 1; i < len(e.Args); i++ {
			x := arg(i)
			if i-1 < sig.Params().Len() {
				name += "_" + typeKey(sig.Params().At(i-1).Type())
				ts = append(ts, c.st.flatten(x.V, sig.Params().At(i-1).Type())...)
			} else {
				ts = append(ts, c.st.scalar(x.V, x.T)) // call index of a nullary function
			}
		}
		rt := sig.Results().At(0).Type()
		return SV{V: appResult(c.st, name, ftm, ts, rt, 0), T: rt}
	case "ncalls":
		f := arg(0)
		return SV{V: c.st.callCount(c.st.scalar(f.V, f.T))}
	case "logged":
		f := arg(0)
		sig := under(f.T).(*types.Signature)
		ls := leavesOf(sig.Params().At(0).Type())
		h := c.st.getHeap(fmt.Sprintf("G|log_%d_%s", 0, ls[0].sort), arrSort("Func", arrSort("Int", ls[0].sort)))
		return SV{V: Select(Select(h, c.st.scalar(f.V, f.T)), iarg(1)), T: sig.Params().At(0).Type()}
	case "minof", "maxof", "bitsof":
		t := c.goType(e.Args[0].typeText())
		ii, ok := intInfoOf(t)
		if !ok {
			c.fail(e, "%s of %v", e.Name, t)
		}
		switch e.Name {
		case "minof":
			return c.mkNum(ii.min())
		case "maxof":
			return c.mkNum(ii.max())
		}
		return c.mkNum(big.NewInt(int64(ii.bits)))
	case "wrap": // wrap(T, n): n reduced into T
		t := c.goType(e.Args[0].typeText())
		ii, ok := intInfoOf(t)
		if !ok {
			c.fail(e, "wrap to %v", t)
		}
		return c.wrap(c.num(arg(1), e), ii.bits, ii.signed)
	case "wrapbits": // wrapbits(bits, signed, n)
		b := e.Args[0].N.Int64()
		return c.wrap(c.num(arg(2), e), int(b), e.Args[1].Name == "true")
	case "abs":
		n := c.num(arg(0), e)
		z := c.mkNum(big.NewInt(0))
		neg := c.arith("-", z.V, n, e)
		return c.ite(c.cmpNum("<", n, z.V), neg, SV{V: n}, e)
	case "tdiv":
		return SV{V: goDiv(iarg(0), iarg(1))}
	case "trem":
		return SV{V: goRem(iarg(0), iarg(1))}
	case "shl", "shr": // exact value * 2^n, floor(value / 2^n)
		return c.shiftSpec(e, c.num(arg(0), e), c.num(arg(1), e))
	case "pow2":
		declPow2()
		return SV{V: pow2Term(iarg(0))}
	case "bv": // bv(x): machine value as bit-vector spec integer
		return SV{V: c.num(arg(0), e)}
	case "bitand", "bitor", "bitxor":
		a, ok := c.num(arg(0), e).(*BVI)
		if !ok {
			c.fail(e, "bit operation outside bit-vector mode")
		}
		b := c.num(arg(1), e).(*BVI)
		p, q, w, s := bvUnify(a, b, 0)
		return SV{V: &BVI{bvBin("bv"+e.Name[3:], p, q), w, s}}
	case "strof": // strof(x): string view of a byte/rune
		return SV{V: UF("str_of_rune", "Str", iarg(0))}
	case "implements": // implements(Display, x): the dynamic type of x has that trait for "any"
		return SV{V: UF("implements_"+e.Args[0].Name+"[any]", "Bool", c.st.scalar(arg(1).V, arg(1).T))}
	case "runecount":
		return SV{V: runeCount(arg(0).V.(*Term)), T: types.Typ[types.Int]}
	case "runeat": // the i-th rune of a string
		return SV{V: UF("rune_at", "Int", arg(0).V.(*Term), iarg(1))}
	case "runeoff": // where the i-th rune starts
		return SV{V: runeOff(arg(0).V.(*Term), iarg(1))}
	case "bytestr": // bytestr(s): the string with the bytes of a slice; bytestr(content, off, n)
		return SV{V: UF("str_of_bytes", "Str", arg(0).V.(*Term), iarg(1), iarg(2))}
	case "runestr":
		return SV{V: UF("str_of_runes", "Str", arg(0).V.(*Term), iarg(1), iarg(2))}
	case "isNaN":
		t := arg(0).V.(*Term)
		return SV{V: App("fp.isNaN", "Bool", t)}
	case "fp":
		return c.fpCall(e)
	case "math":
		x := []*Term{}
		rs := ""
		for i := 1; i < len(e.Args); i++ {
			t := arg(i).V.(*Term)
			x = append(x, t)
			rs = t.Sort
		}
		if len(x) == 0 {
			c.fail(e, "math needs arguments")
		}
		if u, ok := ufDecls["math_"+e.Args[0].Name]; ok {
			rs = u.ret
		}
		return SV{V: UF("math_"+e.Args[0].Name, rs, x...), T: types.Typ[types.Float64]}
	case "boxed": // boxed(x): x as an `any`
		x := arg(0)
		if iv, ok := x.V.(*IfaceV); ok {
			return SV{V: c.st.scalar(iv, nil), T: types.NewInterfaceType(nil, nil)}
		}
		if t, ok := x.V.(*Term); ok && t.Sort == "Any" {
			return x
		}
		return SV{V: c.st.box(x.T, x.V), T: types.NewInterfaceType(nil, nil)}
	case "hasdyn":
		x := arg(0)
		_, ok := x.V.(*IfaceV)
		return SV{V: Bool(ok)}
	case "errof":
		x := arg(0)
		return SV{V: c.st.scalar(x.V, x.T)}
	case "call": // call("Func", args...): result of a pure gost function, by execution
		return c.callPure(e)
	case "unchanged": // unchanged(Type.path): the whole heap array is as on entry
		n := e.Args[0].Name
		return SV{V: Eq(c.st.getHeap(n, heapSorts[n]), c.entry.getHeap(n, heapSorts[n]))}
	case "content": // content(s): the backing array contents of a slice
		x := arg(0)
		s := x.V.(*SliceV)
		et := under(x.T).(*types.Slice).Elem()
		lv := leavesOf(et)
		if len(e.Args) == 2 { // content(s, F): of the field F of the elements
			for _, lf := range lv {
				if lf.path == "."+e.Args[1].Name {
					return SV{V: Select(c.st.getHeap(elemHeap(et, lf.path), arrSort("Int", arrSort("Int", lf.sort))), s.Arr), T: lf.typ}
				}
			}
		}
		if len(lv) != 1 {
			c.fail(e, "content of a slice of composite elements")
		}
		h := c.st.getHeap(elemHeap(et, lv[0].path), arrSort("Int", arrSort("Int", lv[0].sort)))
		return SV{V: Select(h, s.Arr), T: et}
	}
	c.fail(e, "unknown function %s", e.Name)
	return SV{}
}

func (e *Expr) typeText() string {
	switch e.Op {
	case "name":
		return e.Name
	case "un":
		return e.Name + e.Args[0].typeText()
	case "index":
		return e.Args[0].typeText() + "[" + e.Args[1].typeText() + "]"
	}
	return "?"
}

func (c *SpecCtx) wrap(n Val, bits int, signed bool) SV {
	if b, ok := n.(*BVI); ok {
		return SV{V: &BVI{bvExt(b.t, bits, b.signed), bits, signed}}
	}
	return SV{V: wrapInt(n.(*Term), intInfo{bits, signed}, false)}
}

func (c *SpecCtx) shiftSpec(e *Expr, x, y Val) SV {
	if a, ok := x.(*BVI); ok {
		b := y.(*BVI)
		if e.Name == "shl" { // exact for shifts below 2^8, truncated to a.w+256 bits
			w := a.w + 256
			return SV{V: &BVI{bvBin("bvshl", a.ext(w), bvExt(b.t, w, false)), w, a.signed}}
		}
		w := max(a.w, b.w+1)
		op := "bvlshr"
		if a.signed {
			op = "bvashr"
		}
		return SV{V: &BVI{bvBin(op, a.ext(w), bvExt(b.t, w, false)), w, a.signed}}
	}
	declPow2()
	if e.Name == "shl" {
		return SV{V: Mul(x.(*Term), pow2Term(y.(*Term)))}
	}
	return SV{V: iDiv(x.(*Term), pow2Term(y.(*Term)))}
}

func (c *SpecCtx) fpCall(e *Expr) SV {
	x := c.eval(e.Args[1])
	t := x.V.(*Term)
	switch n := e.Args[0].Name; n {
	case "isNaN", "isInfinite", "isZero", "isNegative", "isPositive", "isNormal", "isSubnormal":
		return SV{V: App("fp."+n, "Bool", t)}
	case "abs", "neg":
		return SV{V: App("fp."+n, t.Sort, t), T: x.T}
	case "sqrt":
		return SV{V: App("fp.sqrt", t.Sort, rne, t), T: x.T}
	case "add", "sub", "mul", "div":
		return SV{V: App("fp."+n, t.Sort, rne, t, c.eval(e.Args[2]).V.(*Term)), T: x.T}
	case "ofint":
		return SV{V: intToFloat(t, intInfo{64, true}, 64), T: types.Typ[types.Float64]}
	case "floor", "ceil", "trunc", "round": // (round: half away from zero)
		m := map[string]string{"floor": "RTN", "ceil": "RTP", "trunc": "RTZ", "round": "RNA"}[n]
		return SV{V: App("fp.roundToIntegral", t.Sort, mkTerm(&Term{Op: "lit", Sort: "RoundingMode", Name: m}), t), T: x.T}
	case "eq":
		return SV{V: App("fp.eq", "Bool", t, c.eval(e.Args[2]).V.(*Term))}
	case "to64":
		return SV{V: floatToFloat(t, 64), T: types.Typ[types.Float64]}
	case "to32":
		return SV{V: floatToFloat(t, 32), T: types.Typ[types.Float32]}
	}
	c.fail(e, "fp %s", e.Args[0].Name)
	return SV{}
}

// callPure evaluates a gost function symbolically on a scratch copy of the state.
func (c *SpecCtx) callPure(e *Expr) SV {
	name := e.Args[0].Name
	f := c.v.P.byKey[name]
	if f == nil {
		c.fail(e, "no function %s", name)
	}
	var args []Val
	for i := 1; i < len(e.Args); i++ {
		x := c.eval(e.Args[i])
		args = append(args, x.V)
	}
	st := c.st.clone()
	c.v.dry++
	ns := c.v.nosafety
	c.v.nosafety = true
	outs := c.v.inline(c.fr, st, f, tenv{}, args, nil, "")
	c.v.nosafety = ns
	c.v.dry--
	if len(outs) == 0 {
		c.fail(e, "call of %s has no outcome", name)
	}
	rt := f.Signature.Results().At(0).Type()
	r := outs[len(outs)-1].res[0]
	for i := len(outs) - 2; i >= 0; i-- {
		cond, _ := suffix(outs[i].st.pc, c.st.pc)
		m, ok := mergeVals(outs[i].st, c.st, And(cond...), outs[i].res[0], r, rt)
		if !ok {
			c.fail(e, "call of %s cannot be merged", name)
		}
		r = m
	}
	return SV{V: r, T: rt}
}

func deepEq(a, b *Term) *Term {
	n := "deepeq_" + a.Sort
	r := UF(n, "Bool", a, b)
	if !orderLaws[n] {
		orderLaws[n] = true
		x, y, z := freshBVar("x", a.Sort), freshBVar("y", a.Sort), freshBVar("z", a.Sort)
		c := func(p, q *Term) *Term { return UF(n, "Bool", p, q) }
		axioms = append(axioms,
			&Axiom{Name: n + "_sym", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y}, Eq(c(x, y), c(y, x)), []*Term{c(x, y)})},
			&Axiom{Name: n + "_trans", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y, z}, Implies(And(c(x, y), c(y, z)), c(x, z)), []*Term{c(x, y), c(y, z)})})
	}
	return r
}

// ghostField finds the heap array of a specification-only field.
func (c *SpecCtx) ghostField(t types.Type, name string) (string, string, types.Type) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return "", "", nil
	}
	g := c.v.P.ss.ghosts[n.Obj().Name()+"."+name]
	if g == "" {
		return "", "", nil
	}
	cc := *c
	cc.tyBind = map[string]types.Type{}
	if ta := n.TypeArgs(); ta != nil {
		tps := n.Origin().TypeParams()
		for i := 0; i < ta.Len(); i++ {
			cc.tyBind[tps.At(i).Obj().Name()] = ta.At(i)
		}
	}
	s, gt := cc.specType(g, &Expr{})
	h := heapName(t, ".$"+name)
	heapSorts[h] = arrSort("Int", s)
	return h, s, gt
}

// assign executes a ghost assignment `base.field = value`, or one for all objects at once.
func (c *SpecCtx) assign(s SetStmt) {
	var when *Term
	if s.When != nil {
		when = c.evalBool(s.When)
		if c.v.dry == 0 {
			if quickValid(&Query{Hyps: c.st.hyps(), Goal: Not(when)}, 1, false) {
				return
			}
			if quickValid(&Query{Hyps: c.st.hyps(), Goal: when}, 1, false) {
				when = nil
			}
		}
	}
	lhs := s.L
	if lhs.Op != "field" {
		c.fail(lhs, "ghost assignment to a non-field")
	}
	var bv *Term
	if s.Var != "" {
		bv = freshBVar(s.Var, "Int")
		c = c.bind(map[string]SV{s.Var: {V: bv}})
	}
	x := c.eval(lhs.Args[0])
	el := derefType(x.T)
	if el == nil {
		c.fail(lhs, "ghost assignment through a non-pointer")
	}
	h, srt, _ := c.ghostField(el, lhs.Name)
	if h == "" {
		c.fail(lhs, "no ghost field %s", lhs.Name)
	}
	v := c.eval(s.R)
	t := c.st.scalar(v.V, v.T)
	if t.Sort != srt {
		c.fail(lhs, "ghost field has sort %s, value %s", srt, t.Sort)
	}
	r := c.st.scalar(x.V, x.T)
	cur := c.st.getHeap(h, heapSorts[h])
	if bv != nil {
		if r != bv {
			c.fail(lhs, "ghost assignment for all objects needs like(x, %s).field", s.Var)
		}
		if when != nil {
			t = Ite(when, t, App("select", srt, cur, bv))
		}
		nh := freshSym("gs_"+cleanName(h), heapSorts[h])
		c.st.assume(Forall([]*Term{bv}, Eq(App("select", srt, nh, bv), t), []*Term{App("select", srt, nh, bv)}))
		logStore(h, freshSym("anyref", "Int"))
		c.st.heap[h] = nh
		return
	}
	if when != nil {
		t = Ite(when, t, App("select", srt, cur, r))
	}
	c.st.hstore(h, cur, r, t)
}
