package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// wrapInt reduces a mathematical integer into the range of a machine type (Int mode).
// wrapOf remembers the unreduced value of a wrapped sum.
var wrapOf = map[*Term]*Term{}

func wrapInt(t *Term, ii intInfo, single bool) *Term {
	lo, hi := interval(t)
	if lo != nil && hi != nil && lo.Cmp(ii.min()) >= 0 && hi.Cmp(ii.max()) <= 0 {
		return t
	}
	m := IntB(pow2(ii.bits))
	if single { // at most one wrap in either direction
		mn, mx := IntB(ii.min()), IntB(ii.max())
		r := Ite(Gt(t, mx), Sub(t, m), Ite(Lt(t, mn), Add(t, m), t))
		if r != t {
			wrapOf[r] = t
		}
		return r
	}
	if !ii.signed {
		return iMod(t, m)
	}
	h := IntB(pow2(ii.bits - 1))
	return Sub(iMod(Add(t, h), m), h)
}

func (v *Verifier) negOp(a *Term, t types.Type) *Term {
	if isFloat(t) != 0 {
		return App("fp.neg", a.Sort, a)
	}
	ii, ok := intInfoOf(t)
	if !ok {
		if a.Sort != "Int" && !isBV(a.Sort) {
			return UF("neg_"+a.Sort, a.Sort, a)
		}
		unsup("neg of %s", typeKey(t))
	}
	if bvMode {
		return bvNeg(a)
	}
	return wrapInt(Neg(a), ii, true)
}
func (v *Verifier) comOp(a *Term, t types.Type) *Term {
	ii, ok := intInfoOf(t)
	if !ok {
		unsup("complement of %s", typeKey(t))
	}
	if bvMode {
		return bvUn("bvnot", a)
	}
	if ii.signed {
		return Sub(Int(-1), a)
	}
	return Sub(IntB(ii.max()), a)
}

// ---- bit-vector helpers with constant folding ----
func bvUn(op string, a *Term) *Term {
	w := bvWidth(a.Sort)
	if a.Op == "bv" {
		switch op {
		case "bvnot":
			return BV(new(big.Int).Sub(new(big.Int).Sub(pow2(w), big.NewInt(1)), a.N), w)
		case "bvneg":
			return BV(new(big.Int).Neg(a.N), w)
		}
	}
	return App(op, a.Sort, a)
}
func bvNeg(a *Term) *Term { return bvUn("bvneg", a) }
func toSigned(n *big.Int, w int) *big.Int {
	if n.Bit(w-1) == 1 {
		return new(big.Int).Sub(n, pow2(w))
	}
	return n
}
func bvBin(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("bvBin %s: %s vs %s", op, a.Sort, b.Sort))
	}
	w := bvWidth(a.Sort)
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.N, b.N
		z := new(big.Int)
		switch op {
		case "bvadd":
			return BV(z.Add(x, y), w)
		case "bvsub":
			return BV(z.Sub(x, y), w)
		case "bvmul":
			return BV(z.Mul(x, y), w)
		case "bvand":
			return BV(z.And(x, y), w)
		case "bvor":
			return BV(z.Or(x, y), w)
		case "bvxor":
			return BV(z.Xor(x, y), w)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BV(z, w)
			}
			return BV(z.Lsh(x, uint(y.Int64())), w)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(w))) >= 0 {
				return BV(z, w)
			}
			return BV(z.Rsh(x, uint(y.Int64())), w)
		}
	}
	zero := func(t *Term) bool { return t.Op == "bv" && t.N.Sign() == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case "bvsub", "bvshl", "bvlshr", "bvashr":
		if zero(b) {
			return a
		}
	case "bvand", "bvmul":
		if zero(a) {
			return a
		}
		if zero(b) {
			return b
		}
	}
	return App(op, a.Sort, a, b)
}
func bvCmp(op string, a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" {
		w := bvWidth(a.Sort)
		x, y := a.N, b.N
		if op[2] == 's' {
			x, y = toSigned(x, w), toSigned(y, w)
		}
		c := x.Cmp(y)
		switch op[3:] {
		case "lt":
			return Bool(c < 0)
		case "le":
			return Bool(c <= 0)
		}
	}
	if a == b {
		return Bool(op[3:] == "le")
	}
	return App(op, "Bool", a, b)
}
func bvExt(a *Term, w int, signed bool) *Term {
	k := bvWidth(a.Sort)
	if k == w {
		return a
	}
	if k > w {
		return bvExtract(a, w-1, 0)
	}
	if a.Op == "bv" {
		n := a.N
		if signed {
			n = toSigned(n, k)
		}
		return BV(n, w)
	}
	op := "zero_extend"
	if signed {
		op = "sign_extend"
	}
	return mkTerm(&Term{Op: op, Name: fmt.Sprintf("(_ %s %d)", op, w-k), Sort: bvSort(w), Args: []*Term{a}})
}
func bvExtract(a *Term, hi, lo int) *Term {
	if a.Op == "bv" {
		return BV(new(big.Int).Rsh(a.N, uint(lo)), hi-lo+1)
	}
	if (a.Op == "zero_extend" || a.Op == "sign_extend") && lo == 0 && hi+1 <= bvWidth(a.Args[0].Sort) {
		return bvExtract(a.Args[0], hi, lo)
	}
	if lo == 0 && hi == bvWidth(a.Sort)-1 {
		return a
	}
	return mkTerm(&Term{Op: "extract", Name: fmt.Sprintf("(_ extract %d %d)", hi, lo), Sort: bvSort(hi - lo + 1), Args: []*Term{a}})
}

// goDiv is Go's truncated division on mathematical integers.
func goDiv(a, b *Term) *Term {
	al, _ := interval(a)
	bl, _ := interval(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return iDiv(a, b)
	}
	if bl != nil && bl.Sign() >= 0 { // positive divisor
		return Ite(Ge(a, Int(0)), iDiv(a, b), Neg(iDiv(Neg(a), b)))
	}
	return Ite(Ge(a, Int(0)),
		Ite(Ge(b, Int(0)), iDiv(a, b), Neg(iDiv(a, Neg(b)))),
		Ite(Ge(b, Int(0)), Neg(iDiv(Neg(a), b)), iDiv(Neg(a), Neg(b))))
}
func goRem(a, b *Term) *Term {
	al, _ := interval(a)
	bl, _ := interval(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		return iMod(a, b)
	}
	if bl != nil && bl.Sign() >= 0 {
		return Ite(Ge(a, Int(0)), iMod(a, b), Neg(iMod(Neg(a), b)))
	}
	absb := Ite(Ge(b, Int(0)), b, Neg(b))
	return Ite(Ge(a, Int(0)), iMod(a, absb), Neg(iMod(Neg(a), absb)))
}

func pow2Term(n *Term) *Term {
	if n.isInt() && n.N.Sign() >= 0 && n.N.Cmp(big.NewInt(512)) < 0 {
		return IntB(pow2(int(n.N.Int64())))
	}
	return UF("pow2", "Int", n)
}

var pow2Declared = false

func declPow2() {
	if pow2Declared {
		return
	}
	pow2Declared = true
	n := freshBVar("n", "Int")
	p := UF("pow2", "Int", n)
	axioms = append(axioms, &Axiom{Name: "pow2_pos", Kind: "definition", Trig: []string{"pow2"}, T: Forall([]*Term{n}, Implies(Le(Int(0), n), And(Le(Int(1), p))), []*Term{p})})
	var cs []*Term
	for i := 0; i <= 130; i++ {
		cs = append(cs, App("=", "Bool", UF("pow2", "Int", Int(int64(i))), IntB(pow2(i))))
	}
	axioms = append(axioms, &Axiom{Name: "pow2_table", Kind: "definition", Trig: []string{"pow2"}, T: And(cs...)})
}

func (v *Verifier) binop(fr *Frame, ps *PS, x *ssa.BinOp) Val {
	st := ps.st
	t := v.typ(fr, x.X.Type())
	a, b := v.get(fr, ps, x.X), v.get(fr, ps, x.Y)
	pos := v.pos(x.Pos())
	switch x.Op {
	case token.EQL:
		return v.equal(st, a, b, t, v.typ(fr, x.Y.Type()))
	case token.NEQ:
		return Not(v.equal(st, a, b, t, v.typ(fr, x.Y.Type())))
	}
	if isString(t) {
		p, q := term(a), term(b)
		switch x.Op {
		case token.ADD:
			return strCat(p, q)
		case token.LSS:
			return v.strLess(p, q)
		case token.GTR:
			return v.strLess(q, p)
		case token.LEQ:
			return Not(v.strLess(q, p))
		case token.GEQ:
			return Not(v.strLess(p, q))
		}
	}
	if w := isFloat(t); w != 0 {
		return floatOp(x.Op, term(a), term(b), w)
	}
	ii, ok := intInfoOf(t)
	if !ok {
		if sc := scalarSort(t); len(sc) > 4 && sc[:4] == "Cplx" {
			return UF(fmt.Sprintf("cplx_%d_%s", int(x.Op), sc), sc, term(a), term(b))
		}
		unsup("binop %s on %s", x.Op, typeKey(t))
	}
	p, q := term(a), term(b)
	if x.Op == token.SHL || x.Op == token.SHR {
		return v.shift(fr, st, x, p, q, ii, pos)
	}
	if bvMode {
		sg := "u"
		if ii.signed {
			sg = "s"
		}
		switch x.Op {
		case token.ADD:
			return bvBin("bvadd", p, q)
		case token.SUB:
			return bvBin("bvsub", p, q)
		case token.MUL:
			return bvBin("bvmul", p, q)
		case token.QUO, token.REM:
			v.safety(st, Not(Eq(q, BV(new(big.Int), ii.bits))), "div-zero", pos)
			if x.Op == token.QUO {
				return bvBin("bv"+sg+"div", p, q)
			}
			if ii.signed {
				return bvBin("bvsrem", p, q)
			}
			return bvBin("bvurem", p, q)
		case token.AND:
			return bvBin("bvand", p, q)
		case token.OR:
			return bvBin("bvor", p, q)
		case token.XOR:
			return bvBin("bvxor", p, q)
		case token.AND_NOT:
			return bvBin("bvand", p, bvUn("bvnot", q))
		case token.LSS:
			return bvCmp("bv"+sg+"lt", p, q)
		case token.LEQ:
			return bvCmp("bv"+sg+"le", p, q)
		case token.GTR:
			return bvCmp("bv"+sg+"lt", q, p)
		case token.GEQ:
			return bvCmp("bv"+sg+"le", q, p)
		}
		unsup("bv binop %s", x.Op)
	}
	switch x.Op {
	case token.ADD:
		return wrapInt(Add(p, q), ii, true)
	case token.SUB:
		return wrapInt(Sub(p, q), ii, true)
	case token.MUL:
		return wrapInt(Mul(p, q), ii, false)
	case token.QUO:
		v.safety(st, Not(Eq(q, Int(0))), "div-zero", pos)
		return wrapInt(goDiv(p, q), ii, true)
	case token.REM:
		v.safety(st, Not(Eq(q, Int(0))), "div-zero", pos)
		r := goRem(p, q)
		v.modFacts(st, p, q)
		return r
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Gt(p, q)
	case token.GEQ:
		return Ge(p, q)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return v.intBitop(st, x.Op, p, q, ii)
	}
	unsup("binop %s", x.Op)
	return nil
}

// modFacts records consequences of Euclidean division that nonlinear solvers are slow to find.
func (v *Verifier) modFacts(st *State, a, b *Term) {
	if b.isInt() || a.bound || b.bound {
		return
	}
	bl, _ := interval(b)
	if bl == nil || bl.Sign() < 0 {
		return
	}
	m := iMod(a, b)
	st.assumeOnce(Implies(Gt(b, Int(0)), And(Le(Int(0), m), Lt(m, b),
		Implies(And(Le(Int(0), a), Lt(a, b)), Eq(m, a)),
		Implies(And(Le(b, a), Lt(a, Add(b, b))), Eq(m, Sub(a, b))),
		Implies(And(Le(Neg(b), a), Lt(a, Int(0))), Eq(m, Add(a, b))))))
}

func (v *Verifier) shift(fr *Frame, st *State, x *ssa.BinOp, p, q *Term, ii intInfo, pos string) Val {
	qi, _ := intInfoOf(v.typ(fr, x.Y.Type()))
	if bvMode {
		if qi.signed {
			v.safety(st, bvCmp("bvsle", BV(new(big.Int), qi.bits), q), "negative-shift", pos)
		}
		op := "bvshl"
		if x.Op == token.SHR {
			op = "bvlshr"
			if ii.signed {
				op = "bvashr"
			}
		}
		// SMT shifts by at least the width give 0 (or the sign), as in Go; extend the count when it is wider
		w := ii.bits
		if qi.bits > w {
			r := bvBin(op, bvExt(p, qi.bits, ii.signed && x.Op == token.SHR), q)
			return bvExtract(r, w-1, 0)
		}
		return bvBin(op, p, bvExt(q, w, false))
	}
	if qi.signed {
		v.safety(st, Le(Int(0), q), "negative-shift", pos)
	}
	if !q.isInt() {
		declPow2()
		pw := pow2Term(q)
		if x.Op == token.SHL {
			return Ite(Ge(q, Int(int64(ii.bits))), Int(0), wrapInt(Mul(p, pw), ii, false))
		}
		big := Int(0)
		if ii.signed {
			big = Ite(Lt(p, Int(0)), Int(-1), Int(0))
		}
		return Ite(Ge(q, Int(int64(ii.bits))), big, iDiv(p, pw))
	}
	n := int(q.N.Int64())
	if x.Op == token.SHL {
		if n >= ii.bits {
			return Int(0)
		}
		return wrapInt(Mul(p, IntB(pow2(n))), ii, false)
	}
	if n >= ii.bits {
		n = ii.bits
	}
	return iDiv(p, IntB(pow2(n)))
}

func (v *Verifier) intBitop(st *State, op token.Token, p, q *Term, ii intInfo) *Term {
	if p.isInt() && !q.isInt() && op != token.AND_NOT {
		p, q = q, p
	}
	if q.isInt() && op == token.AND {
		m := new(big.Int).Add(q.N, big.NewInt(1))
		if q.N.Sign() >= 0 && m.BitLen() > 0 && new(big.Int).And(m, q.N).Sign() == 0 { // 2^k-1
			return iMod(p, IntB(m))
		}
		if q.N.Sign() == 0 {
			return Int(0)
		}
		if new(big.Int).And(q.N, new(big.Int).Sub(q.N, big.NewInt(1))).Sign() == 0 && q.N.Sign() > 0 { // single bit
			return Mul(q, iMod(iDiv(p, q), Int(2)))
		}
	}
	if q.isInt() && q.N.Sign() == 0 && (op == token.OR || op == token.XOR || op == token.AND_NOT) {
		return p
	}
	name := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
	name = fmt.Sprintf("%s_%d", name, ii.bits)
	r := UF(name, "Int", p, q)
	withRange(r, ii.min(), ii.max())
	if op == token.OR {
		// if one operand is a multiple of 2^k and the other is below 2^k the disjunction is the sum
		for _, pr := range [][2]*Term{{p, q}, {q, p}} {
			if k := lowZeroBits(pr[0]); k > 0 {
				st.assumeOnce(Implies(And(Le(Int(0), pr[1]), Lt(pr[1], IntB(pow2(k)))), Eq(r, Add(p, q))))
			}
		}
	}
	return r
}

// lowZeroBits: t is a multiple of 2^k by construction.
func lowZeroBits(t *Term) int {
	switch t.Op {
	case "int":
		if t.N.Sign() == 0 {
			return 64
		}
		return int(t.N.TrailingZeroBits())
	case "*":
		if t.Args[0].isInt() {
			return int(t.Args[0].N.TrailingZeroBits()) + lowZeroBits(t.Args[1])
		}
	case "+":
		r := 64
		for _, x := range t.Args {
			if n := lowZeroBits(x); n < r {
				r = n
			}
		}
		return r
	case "mod":
		if t.Args[1].isInt() {
			a, b := lowZeroBits(t.Args[0]), lowZeroBits(t.Args[1])
			if b < a {
				return b
			}
			return a
		}
	case "ite":
		a, b := lowZeroBits(t.Args[1]), lowZeroBits(t.Args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

// equal is Go's == on values of one type.
func (v *Verifier) equal(st *State, a, b Val, t, tb types.Type) *Term {
	if isInterface(t) || isInterface(tb) {
		x, xok := a.(*IfaceV)
		y, yok := b.(*IfaceV)
		if !isInterface(t) {
			x, xok = &IfaceV{t, a}, true
		}
		if !isInterface(tb) {
			y, yok = &IfaceV{tb, b}, true
		}
		if xok && yok {
			if x.Dyn == nil || y.Dyn == nil {
				return Bool(x.Dyn == nil && y.Dyn == nil)
			}
			if types.Identical(x.Dyn, y.Dyn) {
				return v.equal(st, x.V, y.V, x.Dyn, y.Dyn)
			}
			if !isTypeParam(x.Dyn) && !isTypeParam(y.Dyn) {
				return tFalse
			}
		}
		var p, q *Term
		if xok {
			p = st.scalar(x, nil)
		} else {
			p = term(a)
		}
		if yok {
			q = st.scalar(y, nil)
		} else {
			q = term(b)
		}
		return Eq(p, q)
	}
	switch x := a.(type) {
	case *LocV:
		if y, ok := b.(*LocV); ok {
			if sameVal(x, y) {
				return tTrue
			}
			rx, ry := st.resolve(x), st.resolve(y)
			if rx.kind == "cell" && ry.kind == "cell" {
				return tFalse
			}
			if rx.kind == "cell" || ry.kind == "cell" {
				return tFalse
			}
			if len(rx.path) == 0 && len(ry.path) == 0 && rx.kind == "heap" && ry.kind == "heap" {
				return Eq(rx.ref, ry.ref)
			}
			unsup("pointer comparison")
		}
		y := term(b)
		rx := st.resolve(x)
		if rx.kind == "heap" && len(rx.path) == 0 {
			return Eq(rx.ref, y)
		}
		return tFalse // address of a local, field or element is never nil nor an older object
	case *StructV:
		y := b.(*StructV)
		s := structOf(t)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, v.equal(st, x.F[i], y.F[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return And(cs...)
	case *SliceV:
		y := b.(*SliceV)
		if y.Arr.isInt() {
			return Eq(x.Arr, y.Arr)
		}
		if x.Arr.isInt() {
			return Eq(x.Arr, y.Arr)
		}
		unsup("slice comparison")
	case *FuncV:
		if y, ok := b.(*Term); ok && y == UF("nil_Func", "Func") {
			return tFalse
		}
		unsup("func comparison")
	}
	if _, ok := b.(*LocV); ok {
		return v.equal(st, b, a, tb, t)
	}
	if _, ok := b.(*FuncV); ok {
		return v.equal(st, b, a, tb, t)
	}
	p, q := st.scalar(a, t), st.scalar(b, tb)
	if isFloat(t) != 0 {
		return App("fp.eq", "Bool", p, q)
	}
	return Eq(p, q)
}

func (v *Verifier) strLess(a, b *Term) *Term {
	r := UF("str_less", "Bool", a, b)
	if x, ok := strLits[a]; ok {
		if y, ok := strLits[b]; ok {
			return Bool(x < y)
		}
	}
	x, y, z := freshBVar("x", "Str"), freshBVar("y", "Str"), freshBVar("z", "Str")
	lt := func(p, q *Term) *Term { return UF("str_less", "Bool", p, q) }
	for _, a := range axioms {
		if a.Name == "str_order" {
			return r
		}
	}
	axioms = append(axioms, &Axiom{Name: "str_order", Kind: "definition", Trig: []string{"str_less"}, T: And(
		Forall([]*Term{x}, Not(lt(x, x)), []*Term{lt(x, x)}),
		Forall([]*Term{x, y}, Or(lt(x, y), lt(y, x), Eq(x, y)), []*Term{lt(x, y)}),
		Forall([]*Term{x, y, z}, Implies(And(lt(x, y), lt(y, z)), lt(x, z)), []*Term{lt(x, y), lt(y, z)}))})
	return r
}

// ---- conversions ----
func (v *Verifier) convert(ps *PS, x Val, ft, tt types.Type) Val {
	if isTypeParam(ft) || isTypeParam(tt) {
		if types.Identical(ft, tt) {
			return x
		}
		unsup("conversion of type parameter")
	}
	fi, fok := intInfoOf(ft)
	ti, tok := intInfoOf(tt)
	switch {
	case fok && tok:
		a := term(x)
		if bvMode {
			return bvExt(a, ti.bits, fi.signed)
		}
		return wrapInt(a, ti, fi.bits == ti.bits)
	case fok && isFloat(tt) != 0:
		return intToFloat(term(x), fi, isFloat(tt))
	case isFloat(ft) != 0 && tok:
		return floatToInt(term(x), isFloat(ft), ti)
	case isFloat(ft) != 0 && isFloat(tt) != 0:
		return floatToFloat(term(x), isFloat(tt))
	case isString(ft) && isString(tt):
		return x
	case fok && isString(tt):
		return UF("str_of_rune", "Str", term(x))
	case isString(tt):
		return v.bytesToString(ps.st, x, ft)
	case isString(ft):
		return v.stringToSlice(ps.st, term(x), tt)
	}
	if scalarSort(ft) == scalarSort(tt) && scalarSort(ft) != "" {
		return x
	}
	unsup("conversion %s -> %s", typeKey(ft), typeKey(tt))
	return nil
}

func (v *Verifier) bytesToString(st *State, x Val, ft types.Type) Val {
	sl := x.(*SliceV)
	et := v.elemType(ft)
	lf := leavesOf(et)
	if len(lf) != 1 {
		unsup("string conversion")
	}
	h := st.getHeap(elemHeap(et, ""), arrSort("Int", arrSort("Int", lf[0].sort)))
	ii, _ := intInfoOf(et)
	content := Select(h, sl.Arr)
	if ii.bits == 32 { // runes
		r := UF("str_of_runes", "Str", content, sl.Off, sl.Len)
		return r
	}
	r := UF("str_of_bytes", "Str", content, sl.Off, sl.Len)
	i := freshBVar("i", "Int")
	at := UF("str_at", "Int", r, i)
	st.assumeOnce(Eq(strLen(r), sl.Len))
	st.assumeOnce(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, sl.Len)), Eq(at, Select(content, Add(sl.Off, i)))), []*Term{at}))
	return r
}

func (v *Verifier) stringToSlice(st *State, s *Term, tt types.Type) Val {
	et := v.elemType(tt)
	lf := leavesOf(et)
	ii, _ := intInfoOf(et)
	r := st.alloc()
	n := elemHeap(et, "")
	h := st.getHeap(n, arrSort("Int", arrSort("Int", lf[0].sort)))
	content := freshSym("chars", arrSort("Int", lf[0].sort))
	st.hstore(n, h, r, content)
	i := freshBVar("i", "Int")
	if ii.bits == 32 {
		ln := runeCount(s)
		st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, ln)), Eq(Select(content, i), UF("rune_at", "Int", s, i))), []*Term{Select(content, i)}))
		return &SliceV{r, Int(0), ln, ln}
	}
	st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, strLen(s))), Eq(Select(content, i), UF("str_at", "Int", s, i))), []*Term{Select(content, i)}))
	return &SliceV{r, Int(0), strLen(s), strLen(s)}
}

// ---- floats ----
func fpSort(w int) string {
	if w == 32 {
		return "Float32"
	}
	return "Float64"
}
func fpParams(w int) (int, int) {
	if w == 32 {
		return 8, 24
	}
	return 11, 53
}
func floatConst(c constant.Value, w int) *Term {
	if w == 32 {
		f, _ := constant.Float32Val(c)
		return fpBits32(f)
	}
	f, _ := constant.Float64Val(c)
	return fpBits64(f)
}
func fpBits64(f float64) *Term {
	b := math.Float64bits(f)
	return App("lit", "Float64").named(fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1)))
}
func fpBits32(f float32) *Term {
	b := math.Float32bits(f)
	return App("lit", "Float32").named(fmt.Sprintf("(fp #b%b #b%08b #b%023b)", b>>31, b>>23&0xff, b&(1<<23-1)))
}

var rne = mkTerm(&Term{Op: "lit", Sort: "RoundingMode", Name: "RNE"})

func floatOp(op token.Token, a, b *Term, w int) Val {
	s := fpSort(w)
	switch op {
	case token.ADD:
		return App("fp.add", s, rne, a, b)
	case token.SUB:
		return App("fp.sub", s, rne, a, b)
	case token.MUL:
		return App("fp.mul", s, rne, a, b)
	case token.QUO:
		return App("fp.div", s, rne, a, b)
	case token.LSS:
		return App("fp.lt", "Bool", a, b)
	case token.LEQ:
		return App("fp.leq", "Bool", a, b)
	case token.GTR:
		return App("fp.gt", "Bool", a, b)
	case token.GEQ:
		return App("fp.geq", "Bool", a, b)
	}
	unsup("float op %s", op)
	return nil
}
func intToFloat(a *Term, ii intInfo, w int) *Term {
	e, m := fpParams(w)
	if isBV(a.Sort) {
		op := "to_fp_unsigned"
		if ii.signed {
			op = "to_fp"
		}
		return mkTerm(&Term{Op: "int2fp", Name: fmt.Sprintf("(_ %s %d %d)", op, e, m), Sort: fpSort(w), Args: []*Term{rne, a}})
	}
	return UF(fmt.Sprintf("int_to_f%d", w), fpSort(w), a)
}
func floatToInt(a *Term, w int, ii intInfo) *Term {
	// out-of-range conversions are implementation-defined in Go: an uninterpreted function
	if bvMode {
		return UF(fmt.Sprintf("f%d_to_i%d_%v", w, ii.bits, ii.signed), bvSort(ii.bits), a)
	}
	return UF(fmt.Sprintf("f%d_to_i%d_%v", w, ii.bits, ii.signed), "Int", a)
}
func floatToFloat(a *Term, w int) *Term {
	if a.Sort == fpSort(w) {
		return a
	}
	e, m := fpParams(w)
	return mkTerm(&Term{Op: "fp2fp", Name: fmt.Sprintf("(_ to_fp %d %d)", e, m), Sort: fpSort(w), Args: []*Term{rne, a}})
}
