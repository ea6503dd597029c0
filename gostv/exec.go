package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one verification condition.
type Obligation struct {
	Fn     string
	Name   string
	Kind   string
	Pos    string
	Query  *Query
	Res    *Result
	Order  []string
	Cover  bool // must be satisfiable rather than valid
	Failed string
}

type PS struct {
	st  *State
	env map[ssa.Value]Val
}

func (p *PS) clone() *PS {
	e := make(map[ssa.Value]Val, len(p.env)+8)
	for k, v := range p.env {
		e[k] = v
	}
	return &PS{p.st.clone(), e}
}

type Frame struct {
	fn    *ssa.Function
	env   tenv
	spec  *FuncSpec
	entry *State
	types []types.Type   // parameter types, receiver first (also where the function has no body)
	names map[string]Val // contract parameter names -> entry values
	ghost map[string]Val
	loops []*Loop
	rpo   map[*ssa.BasicBlock]int
	depth int
	top   bool
	cells map[string]*LocV // most recent named local cell
	rets  []outcome
	free  []Val
}

type outcome struct {
	st  *State
	res []Val
}

type edge struct {
	from, to *ssa.BasicBlock
	ps       *PS
}

// Verifier executes one function symbolically.
type Verifier struct {
	P        *Program
	top      *Frame
	fnName   string
	obls     []*Obligation
	dry      int
	oblCount map[string]int
	used     map[string]bool // contracts relied upon
	externs  map[string]bool // external functions modelled
	inlined  map[string]bool
	stack    []*ssa.Function
	invs     []string
	opts     map[string]bool
	tmo      float64
	nosafety bool
	loopInfo []string
	noinv    bool
	lemmas   map[string]bool
}

func (v *Verifier) pos(p token.Pos) string {
	q := v.P.fset.Position(p)
	if q.Filename == "" {
		return ""
	}
	f := q.Filename[strings.LastIndex(q.Filename, "/")+1:]
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige records an obligation; afterwards the goal may be assumed.
func (v *Verifier) oblige(st *State, goal *Term, kind, name, pos string) {
	if goal.Op == "true" {
		if v.dry == 0 {
			v.addObl(&Obligation{Fn: v.fnName, Kind: kind, Name: name, Pos: pos, Query: &Query{Goal: tTrue}})
		}
		return
	}
	if v.dry == 0 {
		v.addObl(&Obligation{Fn: v.fnName, Kind: kind, Name: name, Pos: pos, Query: &Query{Hyps: st.hyps(), Goal: goal}})
	}
	st.assume(goal)
}
func (v *Verifier) addObl(o *Obligation) {
	base := o.Fn + "/" + o.Kind
	if o.Name != "" {
		base += "/" + o.Name
	}
	v.oblCount[base]++
	if n := v.oblCount[base]; n > 1 {
		base = fmt.Sprintf("%s#%d", base, n)
	}
	o.Name = base
	v.obls = append(v.obls, o)
}

// safety is an obligation that a run-time panic cannot happen here unless the contract's panics_if holds.
func (v *Verifier) safety(st *State, goal *Term, kind, pos string) {
	if v.nosafety {
		st.assume(goal)
		return
	}
	g := goal
	if v.top.spec != nil && len(v.top.spec.PanicsIf) > 0 {
		pt := v.panicCond()
		v.oblige(st, Or(g, pt), "no-panic", kind, pos)
		st.assume(goal)
		return
	}
	v.oblige(st, g, "no-panic", kind, pos)
}

func (v *Verifier) panicCond() *Term {
	var ps []*Term
	for _, p := range v.top.spec.PanicsIf {
		sc := v.specCtx(v.top, v.top.entry)
		sc.entryOnly = true
		ps = append(ps, sc.evalBool(p.E))
	}
	return Or(ps...)
}

// ---------- loops ----------
type Loop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	ord   int
	names map[string]bool
}

func findLoops(fn *ssa.Function) []*Loop {
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range byHead {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].head.Index < ls[j].head.Index })
	for i, l := range ls {
		l.ord = i
	}
	return ls
}

func rpoOf(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - 1 - i
	}
	return m
}

func (fr *Frame) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range fr.loops {
		if l.head == b {
			return l
		}
	}
	return nil
}

const mergeLimit = 6

// region executes from the given states, within the loop body if lp != nil.
// Returns back edges and exit edges of the loop (for lp == nil both are empty; returns go to fr.rets).
func (v *Verifier) region(fr *Frame, init []edge, lp *Loop, startAtHead bool) (back, exits []edge) {
	pending := map[*ssa.BasicBlock][]*PS{}
	first := startAtHead
	dispatch := func(es []edge) {
		for _, e := range es {
			if lp != nil && !first && e.to == lp.head {
				back = append(back, e)
				continue
			}
			if lp != nil && !lp.body[e.to] {
				exits = append(exits, e)
				continue
			}
			pending[e.to] = append(pending[e.to], e.ps)
		}
	}
	dispatch(init)
	first = false
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fr.rpo[x] < fr.rpo[b] {
				b = x
			}
		}
		pss := pending[b]
		delete(pending, b)
		l := fr.loopAt(b)
		if l != nil && !(lp != nil && l == lp) {
			pss = v.mergeAll(pss, 1)
			for _, ps := range pss {
				ex := v.handleLoop(fr, l, ps)
				dispatch(ex)
			}
			continue
		}
		lim := mergeLimit
		if v.opts["merge"] {
			lim = 1
		}
		if v.opts["split"] {
			lim = 1000
		}
		pss = v.mergeAll(pss, lim)
		for _, ps := range pss {
			dispatch(v.execBlock(fr, b, 0, ps))
		}
	}
	return
}

func (v *Verifier) mergeAll(pss []*PS, limit int) []*PS {
	if len(pss) <= limit {
		return pss
	}
	var out []*PS
	for _, p := range pss {
		done := false
		for i, q := range out {
			if m := v.tryMerge(q, p); m != nil {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, p)
		}
	}
	return out
}

func commonPC(a, b *pcNode) *pcNode {
	for a != b {
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		if an >= bn {
			a = a.up
		} else {
			b = b.up
		}
	}
	return a
}

// tryMerge joins two states with if-then-else, or returns nil.
func (v *Verifier) tryMerge(a, b *PS) *PS {
	anc := commonPC(a.st.pc, b.st.pc)
	ca, fa := suffix(a.st.pc, anc)
	cb, fb := suffix(b.st.pc, anc)
	A, B := And(ca...), And(cb...)
	// use a's condition; in the merged state exactly one of A, B holds
	cond := A
	na, nb := a.clone(), b.clone()
	m := &PS{&State{heap: map[string]*Term{}, cells: map[int]*Cell{}, pc: anc}, map[ssa.Value]Val{}}
	ok := true
	mergeVal := func(x, y Val, t types.Type) Val {
		if !ok {
			return nil
		}
		r, good := mergeVals(na.st, nb.st, cond, x, y, t)
		if !good {
			ok = false
		}
		return r
	}
	for id, c := range na.st.cells {
		d, has := nb.st.cells[id]
		if !has {
			continue
		}
		if c.fwd != d.fwd && (c.fwd == nil || d.fwd == nil) {
			return nil
		}
		if c == d {
			continue
		}
		_ = c
	}
	// promote first (flatten may promote cells), so iterate to a stable set of promotions
	ids := make([]int, 0)
	for id := range na.st.cells {
		if _, has := nb.st.cells[id]; has {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	vals := map[int]Val{}
	for _, id := range ids {
		c, d := na.st.cells[id], nb.st.cells[id]
		if c == d || c.fwd != nil {
			continue
		}
		vals[id] = mergeVal(c.val, d.val, c.typ)
	}
	for k, x := range na.env {
		y, has := nb.env[k]
		if !has {
			continue
		}
		m.env[k] = mergeVal(x, y, k.Type())
		if !ok {
			return nil
		}
	}
	if !ok {
		return nil
	}
	for _, id := range ids {
		c, d := na.st.cells[id], nb.st.cells[id]
		nc := *c
		if c.fwd != nil || d.fwd != nil {
			if c.fwd == nil || d.fwd == nil {
				return nil
			}
			nc.fwd = Ite(cond, c.fwd, d.fwd)
		} else if x, ok := vals[id]; ok {
			nc.val = x
		}
		m.st.cells[id] = &nc
	}
	// cells that exist in one branch only stay reachable
	for id, c := range na.st.cells {
		if _, has := m.st.cells[id]; !has {
			m.st.cells[id] = c
		}
	}
	for id, c := range nb.st.cells {
		if _, has := m.st.cells[id]; !has {
			m.st.cells[id] = c
		}
	}
	for _, k := range sortedKeys(na.st.heap) {
		x := na.st.heap[k]
		y := nb.st.getHeap(k, x.Sort)
		m.st.heap[k] = Ite(cond, x, y)
	}
	for _, k := range sortedKeys(nb.st.heap) {
		if _, has := m.st.heap[k]; !has {
			y := nb.st.heap[k]
			m.st.heap[k] = Ite(cond, na.st.getHeap(k, y.Sort), y)
		}
	}
	if na.st.next == nb.st.next {
		m.st.next = na.st.next
	} else {
		n := freshSym("next", "Int")
		withRange(n, big.NewInt(1), nil)
		m.st.assume(Le(na.st.next, n))
		m.st.assume(Le(nb.st.next, n))
		m.st.next = n
	}
	// re-collect facts: flatten may have added some
	ca, fa = suffix(na.st.pc, anc)
	cb, fb = suffix(nb.st.pc, anc)
	for _, f := range fa {
		m.st.assume(Implies(A, f))
	}
	for _, f := range fb {
		m.st.assume(Implies(B, f))
	}
	if o := Or(A, B); o.Op != "true" {
		if Not(A) != B {
			m.st.branch(Or(A, And(Not(A), B)))
		}
	}
	return m
}

func suffix(p, anc *pcNode) (conds, facts []*Term) {
	for ; p != anc; p = p.up {
		if p.fact {
			facts = append(facts, p.t)
		} else {
			conds = append(conds, p.t)
		}
	}
	for i, j := 0, len(conds)-1; i < j; i, j = i+1, j-1 {
		conds[i], conds[j] = conds[j], conds[i]
	}
	return
}

func sameVal(x, y Val) bool {
	if a, ok := x.(TupleV); ok {
		b, ok := y.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := y.(TupleV); ok {
		return false
	}
	if x == y {
		return true
	}
	switch a := x.(type) {
	case *LocV:
		b, ok := y.(*LocV)
		if !ok || a.kind != b.kind || a.cell != b.cell || a.ref != b.ref || a.arr != b.arr || a.idx != b.idx || len(a.path) != len(b.path) {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
		return true
	case *IfaceV:
		b, ok := y.(*IfaceV)
		if !ok {
			return false
		}
		if a.Dyn == nil || b.Dyn == nil {
			return a.Dyn == nil && b.Dyn == nil
		}
		return types.Identical(a.Dyn, b.Dyn) && sameVal(a.V, b.V)
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !sameVal(a.F[i], b.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		b, ok := y.(*SliceV)
		return ok && *a == *b
	case TupleV:
		b, ok := y.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		b, ok := y.(*FuncV)
		if !ok || a.Fn != b.Fn || len(a.Bind) != len(b.Bind) {
			return false
		}
		for i := range a.Bind {
			if !sameVal(a.Bind[i], b.Bind[i]) {
				return false
			}
		}
		return true
	case *MapIterV:
		b, ok := y.(*MapIterV)
		return ok && *a == *b
	}
	return false
}

func mergeVals(sa, sb *State, c *Term, x, y Val, t types.Type) (Val, bool) {
	if sameVal(x, y) {
		return x, true
	}
	switch a := x.(type) {
	case TupleV:
		b, ok := y.(TupleV)
		if !ok {
			return nil, false
		}
		tt := t.(*types.Tuple)
		var out TupleV
		for i := range a {
			m, ok := mergeVals(sa, sb, c, a[i], b[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			out = append(out, m)
		}
		return out, true
	case *StructV:
		b, ok := y.(*StructV)
		st := structOf(t)
		if !ok || st == nil {
			return nil, false
		}
		o := &StructV{}
		for i := range a.F {
			m, ok := mergeVals(sa, sb, c, a.F[i], b.F[i], st.Field(i).Type())
			if !ok {
				return nil, false
			}
			o.F = append(o.F, m)
		}
		return o, true
	case *SliceV:
		b, ok := y.(*SliceV)
		if !ok {
			return nil, false
		}
		return &SliceV{Ite(c, a.Arr, b.Arr), Ite(c, a.Off, b.Off), Ite(c, a.Len, b.Len), Ite(c, a.Cap, b.Cap)}, true
	case *MapIterV, *FuncV:
		return nil, false
	case *IfaceV:
		if b, ok := y.(*IfaceV); ok && a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
			m, ok := mergeVals(sa, sb, c, a.V, b.V, a.Dyn)
			if !ok {
				return nil, false
			}
			return &IfaceV{a.Dyn, m}, true
		}
		return nil, false
	case *LocV:
		if len(a.path) > 0 || a.kind == "elem" {
			return nil, false
		}
	}
	if b, ok := y.(*LocV); ok && (len(b.path) > 0 || b.kind == "elem") {
		return nil, false
	}
	if _, ok := y.(*IfaceV); ok {
		return nil, false
	}
	if _, ok := y.(*FuncV); ok {
		return nil, false
	}
	if t == nil {
		return nil, false
	}
	p, q := sa.scalar(x, t), sb.scalar(y, t)
	if p.Sort != q.Sort {
		return nil, false
	}
	return Ite(c, p, q), true
}

// ---------- instruction execution ----------
func (v *Verifier) typ(fr *Frame, t types.Type) types.Type { return subst(t, fr.env) }

func (v *Verifier) constVal(c *ssa.Const, t types.Type) Val {
	if c.Value == nil {
		return zeroOf(t)
	}
	if isTypeParam(t) {
		unsup("constant of type parameter")
	}
	if ii, ok := intInfoOf(t); ok {
		n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if bvMode {
			return BV(n, ii.bits)
		}
		return IntB(n)
	}
	if w := isFloat(t); w != 0 {
		return floatConst(c.Value, w)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	}
	unsup("constant %s", c)
	return nil
}

func (v *Verifier) get(fr *Frame, ps *PS, x ssa.Value) Val {
	switch c := x.(type) {
	case *ssa.Const:
		return v.constVal(c, v.typ(fr, c.Type()))
	case *ssa.Function:
		return &FuncV{Fn: c, Env: fr.env}
	case *ssa.Builtin:
		return c
	case *ssa.Global:
		return &LocV{kind: "heap", ref: withRange(UF("global_"+c.Name(), "Int"), big.NewInt(1), nil), base: c.Type().(*types.Pointer).Elem(), typ: c.Type().(*types.Pointer).Elem()}
	}
	r, ok := ps.env[x]
	if !ok {
		unsup("value %s of %s undefined", x.Name(), fr.fn.Name())
	}
	return r
}

func term(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("scalar term expected, have %T", v)
	}
	return t
}

// toTerm forces a scalar.
func (v *Verifier) toTerm(st *State, x Val, t types.Type) *Term { return st.scalar(x, t) }

func (v *Verifier) goTo(from, to *ssa.BasicBlock, ps *PS, fr *Frame) edge {
	// evaluate phis on the edge
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	nv := map[ssa.Value]Val{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv[ph] = v.get(fr, ps, ph.Edges[idx])
	}
	for k, x := range nv {
		ps.env[k] = x
	}
	return edge{from, to, ps}
}

func (v *Verifier) execBlock(fr *Frame, b *ssa.BasicBlock, i int, ps *PS) []edge {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if os.Getenv("GOSTV_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "  ", fr.fn.Name(), in)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{v.goTo(b, b.Succs[0], ps, fr)}
		case *ssa.If:
			c := term(v.get(fr, ps, x.Cond))
			var out []edge
			if !ps.st.contradicts(c) {
				q := ps
				if !ps.st.contradicts(Not(c)) {
					q = ps.clone()
				}
				q.st.branch(c)
				out = append(out, v.goTo(b, b.Succs[0], q, fr))
				if q == ps {
					return out
				}
			}
			if !ps.st.contradicts(Not(c)) {
				ps.st.branch(Not(c))
				out = append(out, v.goTo(b, b.Succs[1], ps, fr))
			}
			return out
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, v.get(fr, ps, r))
			}
			fr.rets = append(fr.rets, outcome{ps.st, rs})
			return nil
		case *ssa.Panic:
			v.safety(ps.st, tFalse, "panic", v.pos(x.Pos()))
			return nil
		case *ssa.Call:
			outs := v.call(fr, ps, &x.Call, x, v.pos(x.Pos()))
			if outs == nil {
				return nil
			}
			bind := func(p *PS, o outcome) {
				switch len(o.res) {
				case 0:
				case 1:
					p.env[x] = o.res[0]
				default:
					p.env[x] = TupleV(o.res)
				}
			}
			if len(outs) == 1 {
				ps.st = outs[0].st
				bind(ps, outs[0])
				continue
			}
			var pss []*PS
			for _, o := range outs {
				p := &PS{o.st, map[ssa.Value]Val{}}
				for k, y := range ps.env {
					p.env[k] = y
				}
				bind(p, o)
				pss = append(pss, p)
			}
			lim := 3
			if v.opts["merge"] {
				lim = 1
			}
			if v.opts["split"] {
				lim = 1000
			}
			pss = v.mergeAll(pss, lim)
			var out []edge
			for _, p := range pss {
				out = append(out, v.execBlock(fr, b, i+1, p)...)
			}
			return out
		default:
			if !v.instr(fr, ps, in) {
				return nil
			}
		}
	}
	return nil
}

// instr executes a simple instruction; false: the path ends here.
func (v *Verifier) instr(fr *Frame, ps *PS, in ssa.Instruction) bool {
	st := ps.st
	switch x := in.(type) {
	case *ssa.Alloc:
		t := v.typ(fr, derefType(x.Type()))
		if a, ok := under(t).(*types.Array); ok {
			r := st.alloc()
			for _, lf := range leavesOf(a.Elem()) {
				n := elemHeap(a.Elem(), lf.path)
				h := st.getHeap(n, arrSort("Int", arrSort("Int", lf.sort)))
				z := v.zeroLeaf(st, a.Elem(), lf)
				st.hstore(n, h, r, ConstArr(arrSort("Int", lf.sort), z))
			}
			ps.env[x] = &SliceV{r, Int(0), Int(a.Len()), Int(a.Len())}
			return true
		}
		l := st.newCell(x.Comment, t, nil)
		st.cells[l.cell].val = v.zeroVal(t)
		ps.env[x] = l
		if x.Comment != "" {
			fr.cells[x.Comment] = l
		}
	case *ssa.Store:
		if sl, ok := v.get(fr, ps, x.Addr).(*SliceV); ok {
			_ = sl
			unsup("array store")
		}
		v.checkNil(fr, ps, x.Addr, v.pos(x.Pos()))
		l := asLoc(v.get(fr, ps, x.Addr), v.typ(fr, x.Addr.Type()))
		st.storeLoc(l, v.get(fr, ps, x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			pv := v.get(fr, ps, x.X)
			if _, ok := pv.(*SliceV); ok {
				ps.env[x] = pv
				return true
			}
			v.checkNil(fr, ps, x.X, v.pos(x.Pos()))
			ps.env[x] = st.loadLoc(asLoc(pv, v.typ(fr, x.X.Type())))
		case token.NOT:
			ps.env[x] = Not(term(v.get(fr, ps, x.X)))
		case token.SUB:
			ps.env[x] = v.negOp(term(v.get(fr, ps, x.X)), v.typ(fr, x.X.Type()))
		case token.XOR:
			ps.env[x] = v.comOp(term(v.get(fr, ps, x.X)), v.typ(fr, x.X.Type()))
		default:
			unsup("unop %s", x.Op)
		}
	case *ssa.BinOp:
		ps.env[x] = v.binop(fr, ps, x)
	case *ssa.ChangeType:
		pv := v.get(fr, ps, x.X)
		ft := v.typ(fr, x.X.Type())
		tt := v.typ(fr, x.Type())
		if isInterface(tt) && !isInterface(ft) { // generic code: T -> interface
			pv = v.mkIface(ft, pv)
		}
		ps.env[x] = pv
	case *ssa.ChangeInterface:
		ps.env[x] = v.get(fr, ps, x.X)
	case *ssa.Convert:
		ps.env[x] = v.convert(ps, v.get(fr, ps, x.X), v.typ(fr, x.X.Type()), v.typ(fr, x.Type()))
	case *ssa.MakeInterface:
		ft := v.typ(fr, x.X.Type())
		ps.env[x] = v.mkIface(ft, v.get(fr, ps, x.X))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, v.get(fr, ps, b))
		}
		ps.env[x] = &FuncV{Fn: x.Fn.(*ssa.Function), Bind: bs, Env: fr.env}
	case *ssa.Extract:
		ps.env[x] = v.get(fr, ps, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		sv, ok := v.get(fr, ps, x.X).(*StructV)
		if !ok {
			unsup("field of opaque struct")
		}
		ps.env[x] = sv.F[x.Field]
	case *ssa.FieldAddr:
		v.checkNil(fr, ps, x.X, v.pos(x.Pos()))
		l := asLoc(v.get(fr, ps, x.X), v.typ(fr, x.X.Type()))
		n := *l
		n.path = append(append([]int{}, l.path...), x.Field)
		n.typ = structOf(l.typ).Field(x.Field).Type()
		ps.env[x] = &n
	case *ssa.IndexAddr:
		sl, ok := v.get(fr, ps, x.X).(*SliceV)
		if !ok {
			unsup("index of %T", v.get(fr, ps, x.X))
		}
		i := v.idx(v.get(fr, ps, x.Index), v.typ(fr, x.Index.Type()))
		v.safety(st, And(Le(Int(0), i), Lt(i, sl.Len)), "index", v.pos(x.Pos()))
		et := v.elemType(v.typ(fr, x.X.Type()))
		if lv := leavesOf(et); v.opts["shift"] && len(lv) == 1 && v.P.ss.ufs["shift"] != nil {
			// the sequence of the slice's own elements, whatever its offset: names the element by its own index
			a := Select(st.getHeap(elemHeap(et, lv[0].path), arrSort("Int", arrSort("Int", lv[0].sort))), sl.Arr)
			sh := v.polyApp(v.P.ss.ufs["shift"], map[string]types.Type{"E": et}, a.Sort, a, sl.Off)
			st.assumeOnce(Eq(Select(sh, i), Select(a, Add(sl.Off, i))))
		}
		ps.env[x] = &LocV{kind: "elem", arr: sl.Arr, idx: Add(sl.Off, i), base: et, typ: et}
	case *ssa.Index:
		if isString(v.typ(fr, x.X.Type())) {
			s := term(v.get(fr, ps, x.X))
			i := v.idx(v.get(fr, ps, x.Index), v.typ(fr, x.Index.Type()))
			v.safety(st, And(Le(Int(0), i), Lt(i, strLen(s))), "index", v.pos(x.Pos()))
			ps.env[x] = withRange(UF("str_at", "Int", s, i), big.NewInt(0), big.NewInt(255))
			return true
		}
		unsup("array index")
	case *ssa.Slice:
		ps.env[x] = v.slice(fr, ps, x)
	case *ssa.MakeSlice:
		et := v.elemType(v.typ(fr, x.Type()))
		n := v.idx(v.get(fr, ps, x.Len), v.typ(fr, x.Len.Type()))
		c := v.idx(v.get(fr, ps, x.Cap), v.typ(fr, x.Cap.Type()))
		// a request beyond the address space panics or exhausts memory in reality: outside the model
		v.safety(st, And(Le(Int(0), n), Le(n, c)), "makeslice", v.pos(x.Pos()))
		st.assume(Le(c, Int(maxLen)))
		ps.env[x] = v.makeSlice(st, et, n, c)
	case *ssa.MakeMap:
		mt := under(v.typ(fr, x.Type())).(*types.Map)
		r := st.alloc()
		v.initMap(st, mt, r)
		ps.env[x] = r
	case *ssa.MapUpdate:
		mt := under(v.typ(fr, x.Map.Type())).(*types.Map)
		m := v.toTerm(st, v.get(fr, ps, x.Map), nil)
		v.safety(st, Not(Eq(m, Int(0))), "nil-map", v.pos(x.Pos()))
		v.mapSet(st, mt, m, v.get(fr, ps, x.Key), v.get(fr, ps, x.Value))
	case *ssa.Lookup:
		if isString(v.typ(fr, x.X.Type())) {
			s := term(v.get(fr, ps, x.X))
			i := v.idx(v.get(fr, ps, x.Index), v.typ(fr, x.Index.Type()))
			v.safety(st, And(Le(Int(0), i), Lt(i, strLen(s))), "index", v.pos(x.Pos()))
			ps.env[x] = withRange(UF("str_at", "Int", s, i), big.NewInt(0), big.NewInt(255))
			return true
		}
		mt := under(v.typ(fr, x.X.Type())).(*types.Map)
		m := v.toTerm(st, v.get(fr, ps, x.X), nil)
		val, has := v.mapGet(st, mt, m, v.get(fr, ps, x.Index))
		if x.CommaOk {
			ps.env[x] = TupleV{val, has}
		} else {
			ps.env[x] = val
		}
	case *ssa.Range:
		t := v.typ(fr, x.X.Type())
		if isString(t) {
			l := st.newCell("$runes", types.Typ[types.Int], Int(0))
			fr.cells["$runes"] = l
			ps.env[x] = &MapIterV{cell: l.cell, str: term(v.get(fr, ps, x.X))}
			return true
		}
		mt := under(t).(*types.Map)
		ks := v.keySort(mt)
		l := st.newCell("$visited", nil, ConstArr(arrSort(ks, "Bool"), tFalse))
		st.cells[l.cell].typ = visitedType(mt)
		fr.cells["$visited"] = l
		ps.env[x] = &MapIterV{cell: l.cell, m: v.toTerm(st, v.get(fr, ps, x.X), nil), mt: mt}
	case *ssa.Next:
		v.next(fr, ps, x)
	case *ssa.TypeAssert:
		v.typeAssert(fr, ps, x)
	case *ssa.RunDefers:
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsup("%T", in)
	default:
		unsup("instruction %T", in)
	}
	return true
}

func (v *Verifier) mkIface(ft types.Type, x Val) Val {
	if isInterface(ft) {
		return x
	}
	return &IfaceV{Dyn: ft, V: x}
}

func (v *Verifier) zeroVal(t types.Type) Val { return zeroOf(t) }

func (v *Verifier) zeroLeaf(st *State, et types.Type, lf leaf) *Term {
	ts := st.flatten(zeroOf(et), et)
	for i, l := range leavesOf(et) {
		if l.path == lf.path {
			return ts[i]
		}
	}
	panic("zeroLeaf")
}

func (v *Verifier) elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return v.elemType(u.Elem())
	}
	unsup("elemType %s", typeKey(t))
	return nil
}

// idx views an integer value as a mathematical integer.
func (v *Verifier) idx(x Val, t types.Type) *Term {
	tm := term(x)
	if isBV(tm.Sort) {
		if tm.Op == "bv" {
			return IntB(tm.N)
		}
		unsup("index arithmetic in bit-vector mode")
	}
	return tm
}

func (v *Verifier) checkNil(fr *Frame, ps *PS, p ssa.Value, pos string) {
	pv := v.get(fr, ps, p)
	switch x := pv.(type) {
	case *Term:
		if x.Sort == "Int" {
			v.safety(ps.st, Not(Eq(x, Int(0))), "nil-deref", pos)
		}
	case *LocV:
		if x.kind == "heap" && len(x.path) == 0 {
			v.safety(ps.st, Not(Eq(x.ref, Int(0))), "nil-deref", pos)
		}
	}
}

func (v *Verifier) makeSlice(st *State, et types.Type, n, c *Term) *SliceV {
	r := st.alloc()
	for _, lf := range leavesOf(et) {
		nm := elemHeap(et, lf.path)
		h := st.getHeap(nm, arrSort("Int", arrSort("Int", lf.sort)))
		st.hstore(nm, h, r, ConstArr(arrSort("Int", lf.sort), v.zeroLeaf(st, et, lf)))
	}
	return &SliceV{r, Int(0), n, c}
}

func (v *Verifier) slice(fr *Frame, ps *PS, x *ssa.Slice) Val {
	st := ps.st
	pos := v.pos(x.Pos())
	if isString(v.typ(fr, x.X.Type())) {
		s := term(v.get(fr, ps, x.X))
		lo, hi := Int(0), strLen(s)
		if x.Low != nil {
			lo = v.idx(v.get(fr, ps, x.Low), v.typ(fr, x.Low.Type()))
		}
		if x.High != nil {
			hi = v.idx(v.get(fr, ps, x.High), v.typ(fr, x.High.Type()))
		}
		v.safety(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(s))), "slice", pos)
		return v.substr(st, s, lo, hi)
	}
	sl, ok := v.get(fr, ps, x.X).(*SliceV)
	if !ok {
		unsup("slice of %T", v.get(fr, ps, x.X))
	}
	lo, hi, mx := Int(0), sl.Len, sl.Cap
	if x.Low != nil {
		lo = v.idx(v.get(fr, ps, x.Low), v.typ(fr, x.Low.Type()))
	}
	if x.High != nil {
		hi = v.idx(v.get(fr, ps, x.High), v.typ(fr, x.High.Type()))
	}
	if x.Max != nil {
		mx = v.idx(v.get(fr, ps, x.Max), v.typ(fr, x.Max.Type()))
	}
	v.safety(st, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, sl.Cap)), "slice", pos)
	if x.High != nil && !st.knows(Le(hi, sl.Len)) && hi != sl.Len {
		// reslicing beyond the length exposes elements the model does not track
		if !quickValid(&Query{Hyps: st.hyps(), Goal: Le(hi, sl.Len)}, 1, false) {
			et := v.elemType(v.typ(fr, x.X.Type()))
			for _, lf := range leavesOf(et) {
				nm := elemHeap(et, lf.path)
				h := st.getHeap(nm, arrSort("Int", arrSort("Int", lf.sort)))
				old := Select(h, sl.Arr)
				nw := freshSym("beyond", arrSort("Int", lf.sort))
				b := freshBVar("i", "Int")
				st.assume(Forall([]*Term{b}, Implies(Lt(b, Add(sl.Off, sl.Len)), Eq(Select(nw, b), Select(old, b))), []*Term{Select(nw, b)}))
				st.hstore(nm, h, sl.Arr, nw)
			}
		}
	}
	return &SliceV{sl.Arr, Add(sl.Off, lo), Sub(hi, lo), Sub(mx, lo)}
}

func (v *Verifier) substr(st *State, s, lo, hi *Term) *Term {
	if lo.Op == "int" && lo.N.Sign() == 0 && hi == strLen(s) {
		return s
	}
	r := UF("str_sub", "Str", s, lo, hi)
	st.assumeOnce(Eq(strLen(r), Sub(hi, lo)))
	i := freshBVar("i", "Int")
	st.assumeOnce(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, Sub(hi, lo))), Eq(UF("str_at", "Int", r, i), UF("str_at", "Int", s, Add(lo, i)))), []*Term{UF("str_at", "Int", r, i)}))
	return r
}
