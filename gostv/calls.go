package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnKey names a function as contracts do: "Vec.Push", "VecNew".
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func isGost(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		return isGost(f.Parent())
	}
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Name() == "gost"
		}
		return false
	}
	return p.Pkg.Name() == "gost"
}

func (v *Verifier) call(fr *Frame, ps *PS, c *ssa.CallCommon, instr ssa.Value, pos string) []outcome {
	st := ps.st
	var args []Val
	var at []types.Type
	for _, a := range c.Args {
		args = append(args, v.get(fr, ps, a))
		at = append(at, v.typ(fr, a.Type()))
	}
	var rt types.Type
	if instr != nil {
		rt = v.typ(fr, instr.Type())
	}
	if c.IsInvoke() {
		return v.invoke(fr, ps, v.get(fr, ps, c.Value), v.typ(fr, c.Value.Type()), c.Method, args, at, rt, pos)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return v.builtin(fr, ps, f, c, args, at, rt, pos)
	case *ssa.Function:
		return v.callStatic(fr, st, f, fr.env, args, at, rt, pos, nil)
	}
	fv := v.get(fr, ps, c.Value)
	return v.callValue(fr, st, fv, v.typ(fr, c.Value.Type()), args, rt, pos)
}

// callValue calls a function value.
func (v *Verifier) callValue(fr *Frame, st *State, fv Val, ft types.Type, args []Val, rt types.Type, pos string) []outcome {
	sig := under(ft).(*types.Signature)
	switch f := fv.(type) {
	case *FuncV:
		return v.callStatic(fr, st, f.Fn, f.Env, args, nil, rt, pos, f.Bind)
	case *Term:
		v.safety(st, Not(Eq(f, UF("nil_Func", "Func"))), "nil-func", pos)
		// an arbitrary function of the caller: pure and deterministic in its arguments;
		// a nullary one may return a different value each time (indexed by its call count)
		var ts []*Term
		name := "app"
		for i, a := range args {
			pt := sig.Params().At(i).Type()
			ts = append(ts, st.flatten(a, pt)...)
			name += "_" + typeKey(pt)
		}
		if sig.Results().Len() == 0 {
			st.logCall(f, ts)
			return []outcome{{st, nil}}
		}
		if len(args) == 0 {
			ts = append(ts, st.callCount(f))
			st.bumpCall(f)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, appResult(st, name, f, ts, sig.Results().At(i).Type(), i))
		}
		return []outcome{{st, res}}
	}
	unsup("call of %T", fv)
	return nil
}

func appName(name string, rt types.Type, path string, i int) string {
	return fmt.Sprintf("%s_to_%s%s_%d", name, typeKey(rt), path, i)
}
func appResult(st *State, name string, f *Term, ts []*Term, rt types.Type, i int) Val {
	var rs []*Term
	lv := leavesOf(rt)
	for _, lf := range lv {
		r := UF(appName(name, rt, lf.path, i), lf.sort, append([]*Term{f}, ts...)...)
		if lf.sort == "Int" && typeKey(rt) == "Ordering" && !r.bound {
			withRange(r, big.NewInt(-1), big.NewInt(1)) // an Ordering is one of its three constants
		} else {
			rangeLeaf(r, lf)
		}
		rs = append(rs, r)
	}
	st.wfFacts(lv, rs)
	return build(rt, rs)
}

// Calls of nullary or result-less closures are recorded in ghost state.
func (s *State) callCount(f *Term) *Term {
	h := s.getHeap("G|calls", arrSort("Func", "Int"))
	return withRange(Select(h, f), big.NewInt(0), nil)
}
func (s *State) bumpCall(f *Term) {
	h := s.getHeap("G|calls", arrSort("Func", "Int"))
	s.hstore("G|calls", h, f, Add(Select(h, f), Int(1)))
}
func (s *State) logCall(f *Term, ts []*Term) {
	n := s.callCount(f)
	for i, t := range ts {
		nm := fmt.Sprintf("G|log_%d_%s", i, t.Sort)
		h := s.getHeap(nm, arrSort("Func", arrSort("Int", t.Sort)))
		s.hstore(nm, h, f, Store(Select(h, f), n, t))
	}
	s.bumpCall(f)
}

// callStatic calls a known function.
func (v *Verifier) callStatic(fr *Frame, st *State, f *ssa.Function, callerEnv tenv, args []Val, at []types.Type, rt types.Type, pos string, bind []Val) []outcome {
	env := tenv{}
	g := f
	if o := f.Origin(); o != nil && o != f {
		tps := o.TypeParams()
		ta := f.TypeArgs()
		for i := range ta {
			env[tps.At(i)] = subst(ta[i], callerEnv)
		}
		g = o
	} else if f.Parent() != nil || f.Synthetic != "" {
		for k, x := range callerEnv {
			env[k] = x
		}
	} else {
		for k, x := range callerEnv {
			env[k] = x
		}
	}
	if !isGost(g) {
		return v.extern(fr, st, g, args, at, rt, pos)
	}
	key := fnKey(g)
	if g.Parent() == nil && g.Synthetic == "" {
		if sp := v.P.specs[key]; sp != nil && !sp.Inline && !sp.Opts["transparent"] && !dropped[key] && !(v.opts["inline:"+key]) && !interior(args) {
			return v.callContract(fr, st, g, env, sp, args, pos)
		}
		if h := internalModels[key]; h != nil {
			if outs, ok := h(v, st, env, g, args); ok {
				return outs
			}
		}
	}
	return v.inline(fr, st, g, env, args, bind, pos)
}

func (v *Verifier) inline(fr *Frame, st *State, g *ssa.Function, env tenv, args []Val, bind []Val, pos string) []outcome {
	if g.Blocks == nil {
		unsup("no body for %s", g.Name())
	}
	n := 0
	for _, s := range v.stack {
		if s == g {
			n++
		}
	}
	if n > 1 || len(v.stack) > 25 {
		unsup("recursive call of %s without a contract", fnKey(g))
	}
	if v.dry == 0 {
		v.inlined[fnKey(g)] = true
	}
	nf := &Frame{fn: g, env: env, entry: st, depth: fr.depth + 1, loops: findLoops(g), rpo: rpoOf(g), cells: map[string]*LocV{}, free: bind}
	if sp := v.P.specs[fnKey(g)]; sp != nil {
		nf.spec = sp
	}
	v.stack = append(v.stack, g)
	defer func() { v.stack = v.stack[:len(v.stack)-1] }()
	return v.runFrame(nf, st, args)
}

func (v *Verifier) runFrame(nf *Frame, st *State, args []Val) []outcome {
	g := nf.fn
	ps := &PS{st, map[ssa.Value]Val{}}
	nf.names = map[string]Val{}
	for i, p := range g.Params {
		ps.env[p] = args[i]
		nf.names[p.Name()] = args[i]
	}
	for i, fv := range g.FreeVars {
		ps.env[fv] = nf.free[i]
	}
	nf.entry = st.clone()
	v.region(nf, []edge{{nil, g.Blocks[0], ps}}, nil, false)
	return nf.rets
}

func one(st *State, rs ...Val) []outcome { return []outcome{{st, rs}} }

func (v *Verifier) builtin(fr *Frame, ps *PS, b *ssa.Builtin, c *ssa.CallCommon, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
	st := ps.st
	switch b.Name() {
	case "ssa:deferstack":
		return one(st, tTrue)
	case "len":
		switch {
		case isString(at[0]):
			return one(st, v.mkInt(strLen(term(args[0]))))
		default:
			switch u := under(at[0]).(type) {
			case *types.Map:
				return one(st, v.mkInt(v.mapLen(st, u, v.toTerm(st, args[0], nil))))
			}
			if sl, ok := args[0].(*SliceV); ok {
				return one(st, v.mkInt(sl.Len))
			}
		}
	case "cap":
		if sl, ok := args[0].(*SliceV); ok {
			return one(st, v.mkInt(sl.Cap))
		}
	case "append":
		return one(st, v.appendOp(st, args, at))
	case "copy":
		return one(st, v.copyOp(st, args, at))
	case "delete":
		mt := under(at[0]).(*types.Map)
		v.mapDelete(st, mt, v.toTerm(st, args[0], nil), args[1])
		return one(st)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "print", "println":
		return one(st)
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (v *Verifier) mkInt(t *Term) *Term {
	if bvMode {
		if t.isInt() {
			return BV(t.N, 64)
		}
		unsup("length in bit-vector mode")
	}
	return t
}

func (v *Verifier) appendOp(st *State, args []Val, at []types.Type) Val {
	s := args[0].(*SliceV)
	et := v.elemType(at[0])
	if isString(at[1]) {
		args[1] = v.stringToSlice(st, term(args[1]), types.NewSlice(et))
	}
	t := args[1].(*SliceV)
	n := t.Len
	newLen := Add(s.Len, n)
	if n.isInt() && n.N.Sign() == 0 {
		return s
	}
	// the result fits the address space (otherwise the program runs out of memory)
	st.assume(Le(Add(s.Off, newLen), Int(maxLen)))
	fits := Le(newLen, s.Cap)
	fresh := st.alloc()
	ncap := freshSym("cap", "Int")
	withRange(ncap, big.NewInt(0), big.NewInt(maxLen))
	arr := Ite(fits, s.Arr, fresh)
	cp := Ite(fits, s.Cap, ncap)
	st.assume(Le(newLen, ncap))
	st.assume(Le(Add(s.Off, ncap), Int(maxLen)))
	if !n.isInt() {
		// append of an empty slice never reallocates (fits holds as len <= cap)
		st.assumeOnce(Le(s.Len, s.Cap))
	}
	for _, lf := range leavesOf(et) {
		nm := elemHeap(et, lf.path)
		h := st.getHeap(nm, arrSort("Int", arrSort("Int", lf.sort)))
		old := Select(h, s.Arr)
		src := Select(h, t.Arr)
		var content *Term
		if n.isInt() && n.N.Cmp(big.NewInt(8)) <= 0 {
			content = old
			for i := int64(0); i < n.N.Int64(); i++ {
				content = Store(content, Add(s.Off, s.Len, Int(i)), Select(src, Add(t.Off, Int(i))))
			}
		} else {
			content = freshSym("appended", arrSort("Int", lf.sort))
			i := freshBVar("i", "Int")
			base := Add(s.Off, s.Len)
			st.assume(Forall([]*Term{i}, Eq(Select(content, i),
				Ite(And(Le(base, i), Lt(i, Add(base, n))), Select(src, Add(t.Off, Sub(i, base))), Select(old, i))), []*Term{Select(content, i)}))
			// forward trigger: every source element has a place
			j := freshBVar("j", "Int")
			st.assume(Forall([]*Term{j}, Implies(And(Le(t.Off, j), Lt(j, Add(t.Off, n))), Eq(Select(content, Add(base, Sub(j, t.Off))), Select(src, j))), []*Term{Select(src, j)}))
		}
		st.hstore(nm, h, arr, content)
	}
	return &SliceV{arr, s.Off, newLen, cp}
}

func (v *Verifier) copyOp(st *State, args []Val, at []types.Type) Val {
	d := args[0].(*SliceV)
	et := v.elemType(at[0])
	if isString(at[1]) {
		args[1] = v.stringToSlice(st, term(args[1]), types.NewSlice(et))
	}
	s := args[1].(*SliceV)
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	for _, lf := range leavesOf(et) {
		nm := elemHeap(et, lf.path)
		h := st.getHeap(nm, arrSort("Int", arrSort("Int", lf.sort)))
		old := Select(h, d.Arr)
		src := Select(h, s.Arr)
		content := freshSym("copied", arrSort("Int", lf.sort))
		i := freshBVar("i", "Int")
		st.assume(Forall([]*Term{i}, Eq(Select(content, i),
			Ite(And(Le(d.Off, i), Lt(i, Add(d.Off, n))), Select(src, Add(s.Off, Sub(i, d.Off))), Select(old, i))), []*Term{Select(content, i)}))
		st.hstore(nm, h, d.Arr, content)
	}
	return v.mkInt(n)
}

// methodOf finds the gost function implementing a method on a dynamic type.
func (v *Verifier) methodOf(dyn types.Type, name string) (*ssa.Function, tenv, bool, bool) {
	t := types.Unalias(dyn)
	isPtr := false
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
		isPtr = true
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil, false, false
	}
	o := n.Origin()
	for i := 0; i < o.NumMethods(); i++ {
		m := o.Method(i)
		if m.Name() != name {
			continue
		}
		f := v.P.prog.FuncValue(m)
		if f == nil {
			return nil, nil, false, false
		}
		env := tenv{}
		if ta := n.TypeArgs(); ta != nil {
			tps := f.TypeParams()
			for j := 0; j < ta.Len(); j++ {
				env[tps.At(j)] = ta.At(j)
			}
		}
		_, ptrRecv := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
		return f, env, ptrRecv, isPtr
	}
	return nil, nil, false, false
}

func (v *Verifier) invoke(fr *Frame, ps *PS, recv Val, it types.Type, m *types.Func, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
	st := ps.st
	iv, ok := recv.(*IfaceV)
	if !ok {
		// opaque interface value: a trait method of an unknown implementation
		t := term(recv)
		if t.Sort != "Any" { // a value of a constrained type parameter
			return v.traitCall(st, nil, t, m.Name(), args, at, rt)
		}
		v.safety(st, Not(Eq(t, UF("any_nil", "Any"))), "nil-interface", pos)
		return v.opaqueInvoke(st, t, it, m, args, at, rt)
	}
	if iv.Dyn == nil {
		v.safety(st, tFalse, "nil-interface", pos)
		return nil
	}
	if isTypeParam(iv.Dyn) {
		return v.traitCall(st, iv.Dyn, iv.V, m.Name(), args, at, rt)
	}
	if p, ok := types.Unalias(iv.Dyn).(*types.Pointer); ok && isTypeParam(p.Elem()) {
		if t, ok := iv.V.(*Term); ok {
			v.safety(st, Not(Eq(t, Int(0))), "nil-deref", pos)
		}
		return v.traitCall(st, p.Elem(), st.loadLoc(asLoc(iv.V, iv.Dyn)), m.Name(), args, at, rt)
	}
	f, env, ptrRecv, isPtr := v.methodOf(iv.Dyn, m.Name())
	if f == nil {
		unsup("method %s of %s", m.Name(), typeKey(iv.Dyn))
	}
	rv := iv.V
	if isPtr && !ptrRecv {
		rv = st.loadLoc(asLoc(rv, iv.Dyn))
	}
	if !isPtr && ptrRecv {
		unsup("pointer method on value")
	}
	all := append([]Val{rv}, args...)
	return v.callStaticEnv(fr, st, f, env, all, rt, pos)
}

// interior tells whether an argument points inside an object (such a pointer has no name of its own).
func interior(args []Val) bool {
	for _, a := range args {
		if l, ok := a.(*LocV); ok && (len(l.path) > 0 || l.kind != "heap" && l.kind != "cell") {
			return true
		}
	}
	return false
}

// callStaticEnv calls an origin function under an explicit type environment.
func (v *Verifier) callStaticEnv(fr *Frame, st *State, g *ssa.Function, env tenv, args []Val, rt types.Type, pos string) []outcome {
	if !isGost(g) {
		return v.extern(fr, st, g, args, nil, rt, pos)
	}
	key := fnKey(g)
	if sp := v.P.specs[key]; sp != nil && !sp.Inline && !sp.Opts["transparent"] && !dropped[key] && !v.opts["inline:"+key] && !interior(args) {
		return v.callContract(fr, st, g, env, sp, args, pos)
	}
	return v.inline(fr, st, g, env, args, nil, pos)
}

// traitCall models a trait method on a value of an abstract element type.
func (v *Verifier) traitCall(st *State, t types.Type, self Val, name string, args []Val, at []types.Type, rt types.Type) []outcome {
	s := term(self)
	switch name {
	case "Cmp":
		return one(st, traitCmp(s, term(args[0])))
	case "Eq":
		return one(st, traitEq(s, term(args[0])))
	case "Clone":
		return one(st, UF("clone_"+s.Sort, s.Sort, s))
	case "Display", "ToString", "Debug":
		return one(st, UF(strings.ToLower(name)+"_"+s.Sort, "Str", s))
	}
	unsup("trait method %s", name)
	return nil
}

var orderLaws = map[string]bool{}

func traitCmp(a, b *Term) *Term {
	n := "cmp_" + a.Sort
	r := UF(n, "Int", a, b)
	if !r.bound {
		withRange(r, big.NewInt(-1), big.NewInt(1))
	}
	if !orderLaws[n] {
		orderLaws[n] = true
		x, y, z := freshBVar("x", a.Sort), freshBVar("y", a.Sort), freshBVar("z", a.Sort)
		c := func(p, q *Term) *Term { return UF(n, "Int", p, q) }
		axioms = append(axioms,
			&Axiom{Name: n + "_range", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y}, And(Le(Int(-1), c(x, y)), Le(c(x, y), Int(1)), Eq(c(y, x), Neg(c(x, y)))), []*Term{c(x, y)})},
			&Axiom{Name: n + "_refl", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x}, Eq(c(x, x), Int(0)), []*Term{c(x, x)})},
			&Axiom{Name: n + "_trans", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y, z}, And(
				Implies(And(Le(c(x, y), Int(0)), Le(c(y, z), Int(0))), Le(c(x, z), Int(0))),
				Implies(And(Lt(c(x, y), Int(0)), Le(c(y, z), Int(0))), Lt(c(x, z), Int(0))),
				Implies(And(Le(c(x, y), Int(0)), Lt(c(y, z), Int(0))), Lt(c(x, z), Int(0)))), []*Term{c(x, y), c(y, z)})},
		)
	}
	return r
}

func traitEq(a, b *Term) *Term {
	n := "eq_" + a.Sort
	r := UF(n, "Bool", a, b)
	if !orderLaws[n] {
		orderLaws[n] = true
		x, y, z := freshBVar("x", a.Sort), freshBVar("y", a.Sort), freshBVar("z", a.Sort)
		c := func(p, q *Term) *Term { return UF(n, "Bool", p, q) }
		axioms = append(axioms,
			&Axiom{Name: n + "_refl", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x}, c(x, x), []*Term{c(x, x)})},
			&Axiom{Name: n + "_sym", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y}, Implies(c(x, y), c(y, x)), []*Term{c(x, y)})},
			&Axiom{Name: n + "_trans", Kind: "assumed", Trig: []string{n}, T: Forall([]*Term{x, y, z}, Implies(And(c(x, y), c(y, z)), c(x, z)), []*Term{c(x, y), c(y, z)})},
		)
	}
	return r
}

func (v *Verifier) opaqueInvoke(st *State, recv *Term, it types.Type, m *types.Func, args []Val, at []types.Type, rt types.Type) []outcome {
	name := "invoke_" + typeKey(it) + "_" + m.Name()
	if n := m.Name(); (n == "Display" || n == "ToString" || n == "Debug") && len(args) == 0 {
		return one(st, UF(strings.ToLower(n)+"_Any", "Str", recv))
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, st.flatten(a, at[i])...)
	}
	sig := m.Type().(*types.Signature)
	_ = sig
	v.externs["method "+m.Name()+" of an unknown implementation of "+typeKey(it)+" (modelled as a pure function)"] = true
	if rt == nil {
		return one(st)
	}
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return one(st)
		}
		unsup("opaque invoke with several results")
	}
	return one(st, appResult(st, name, recv, ts, rt, 0))
}

func (v *Verifier) typeAssert(fr *Frame, ps *PS, x *ssa.TypeAssert) {
	st := ps.st
	xv := v.get(fr, ps, x.X)
	tt := v.typ(fr, x.AssertedType)
	pos := v.pos(x.Pos())
	ret := func(val Val, ok *Term) {
		if x.CommaOk {
			ps.env[x] = TupleV{val, ok}
		} else {
			v.safety(st, ok, "type-assertion", pos)
			ps.env[x] = val
		}
	}
	if iv, ok := xv.(*IfaceV); ok {
		if iv.Dyn == nil {
			ret(zeroOf(tt), tFalse)
			return
		}
		if isInterface(tt) {
			okT := v.implements(iv.Dyn, tt)
			if okT.Op == "false" {
				ret(&IfaceV{}, okT)
			} else {
				ret(iv, okT)
			}
			return
		}
		if types.Identical(iv.Dyn, tt) {
			ret(iv.V, tTrue)
			return
		}
		if !isTypeParam(iv.Dyn) && !isTypeParam(tt) {
			ret(zeroOf(tt), tFalse)
			return
		}
		xv = st.scalar(iv, nil)
	}
	a := term(xv)
	if isInterface(tt) {
		ok := UF("implements_"+typeKey(tt), "Bool", a)
		ret(a, ok)
		return
	}
	ok := Eq(UF("anytag", "Int", a), typeTag(tt))
	u := st.unbox(tt, a)
	if x.CommaOk {
		z := st.flatten(zeroOf(tt), tt)
		ts := st.flatten(u, tt)
		for i := range ts {
			ts[i] = Ite(ok, ts[i], z[i])
		}
		ret(build(tt, ts), ok)
		return
	}
	ret(u, ok)
}

// implements decides whether a dynamic type satisfies an interface. For an abstract element
// type the answer is "yes" unless the contract asks for the other case: contracts in this
// library are about element types that implement the trait an operation needs.
func (v *Verifier) implements(dyn, it types.Type) *Term {
	iface := under(it).(*types.Interface)
	if isTypeParam(dyn) {
		if iface.NumMethods() > 0 {
			if v.opts["notrait:"+iface.Method(0).Name()] {
				return tFalse
			}
			if v.opts["maybe:"+iface.Method(0).Name()] {
				return UF("has_"+iface.Method(0).Name()+"_"+typeKey(dyn), "Bool")
			}
		}
		return tTrue
	}
	if p, ok := types.Unalias(dyn).(*types.Pointer); ok && isTypeParam(p.Elem()) {
		return v.implements(p.Elem(), it) // the method set of *T holds the methods of T
	}
	return Bool(types.Implements(dyn, iface))
}

// extern models a function outside the package.
func (v *Verifier) extern(fr *Frame, st *State, f *ssa.Function, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
	name := f.RelString(nil)
	if f.Pkg != nil {
		if sp := v.P.specs[f.Pkg.Pkg.Name()+"."+fnKey(f)]; sp != nil {
			v.externs[name+" (assumed contract: "+sp.Trusted+")"] = true
			return v.callContract(fr, st, f, tenv{}, sp, args, pos)
		}
	}
	if h, ok := externModels[name]; ok {
		v.externs[name] = true
		return h(v, fr, st, f, args, at, rt, pos)
	}
	if strings.HasPrefix(name, "math.") {
		v.externs[name+" (uninterpreted pure function)"] = true
		var ts []*Term
		for _, a := range args {
			ts = append(ts, term(a))
		}
		nm := "math_" + f.Name()
		sig := f.Signature
		if sig.Results().Len() == 1 {
			return one(st, UF(nm, scalarSort(sig.Results().At(0).Type()), ts...))
		}
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, UF(fmt.Sprintf("%s_%d", nm, i), scalarSort(sig.Results().At(i).Type()), ts...))
		}
		return one(st, rs...)
	}
	if os.Getenv("GOSTV_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "extern", name)
	}
	unsup("external function %s", name)
	return nil
}

type externModel func(v *Verifier, fr *Frame, st *State, f *ssa.Function, args []Val, at []types.Type, rt types.Type, pos string) []outcome

var externModels = map[string]externModel{}

type internalModel func(v *Verifier, st *State, env tenv, f *ssa.Function, args []Val) ([]outcome, bool)

var internalModels = map[string]internalModel{}

// paramTypes lists the parameter types of a function, receiver first.
func paramTypes(g *ssa.Function) (out []types.Type) {
	if len(g.Params) > 0 {
		for _, p := range g.Params {
			out = append(out, p.Type())
		}
		return
	}
	if r := g.Signature.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		out = append(out, g.Signature.Params().At(i).Type())
	}
	return
}
