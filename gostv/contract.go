package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects: which heap arrays a function may change ----
type effect struct {
	sort  string
	fresh bool // also at references allocated during the call
}

var effMemo = map[string]map[string]*effect{}
var effBusy = map[string]bool{}
var effCut bool

func envKey(env tenv, f *ssa.Function) string {
	s := ""
	tps := f.TypeParams()
	if tps == nil {
		return ""
	}
	for i := 0; i < tps.Len(); i++ {
		s += ";" + typeKey(subst(tps.At(i), env))
	}
	return s
}

func (v *Verifier) effects(g *ssa.Function, env tenv, sp *FuncSpec) map[string]*effect {
	key := fmt.Sprint(bvMode) + sp.Key + envKey(env, g)
	if e, ok := effMemo[key]; ok {
		return e
	}
	if effBusy[key] {
		effCut = true
		return map[string]*effect{}
	}
	outer := len(effBusy) == 0
	if outer {
		effCut = false
	}
	effBusy[key] = true
	defer delete(effBusy, key)
	out := map[string]*effect{}
	if sp.Trusted != "" {
		effMemo[key] = out
		return out
	}
	sub := &Verifier{P: v.P, fnName: fnKey(g), oblCount: map[string]int{}, used: map[string]bool{}, externs: map[string]bool{}, inlined: map[string]bool{}, opts: sp.Opts, dry: 1, nosafety: true, noinv: true, lemmas: map[string]bool{}}
	saveLogs := storeLogs
	log := storeLogT{}
	storeLogs = []storeLogT{log}
	defer func() { storeLogs = saveLogs }()
	fr, st := sub.setup(g, env, sp)
	mods := sub.modTerms(fr, st, sp)
	outs := sub.runFrame2(fr, st)
	for _, o := range outs {
		if len(sp.Sets) > 0 {
			sc := sub.specCtx(fr, o.st)
			rs := g.Signature.Results()
			for j := 0; j < rs.Len(); j++ {
				sc.result = append(sc.result, SV{o.res[j], subst(rs.At(j).Type(), env)})
			}
			for _, s := range sp.Sets {
				sc.assign(s)
			}
		}
		for name, h := range o.st.heap {
			if fr.entry.getHeap(name, h.Sort) != h {
				if out[name] == nil {
					out[name] = &effect{sort: h.Sort}
				}
			}
		}
	}
	for name, e := range out {
		for idx := range log[name] {
			ok := false
			for _, m := range mods {
				if m.match(name) && m.ref == idx {
					ok = true
				}
			}
			if !ok {
				e.fresh = true
			}
		}
		if log[name] == nil {
			e.fresh = true
		}
	}
	// inside a recursion the result may be incomplete: only the outermost call keeps it
	if outer || !effCut {
		effMemo[key] = out
	}
	return out
}

// modTerm is one evaluated modifies clause.
type modTerm struct {
	prefix []string
	ref    *Term               // single reference, or
	cond   func(r *Term) *Term // condition on the reference
	calls  bool
	text   string
}

func (m *modTerm) match(name string) bool {
	for _, p := range m.prefix {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// modTerms evaluates the modifies clauses in the entry state.
func (v *Verifier) modTerms(fr *Frame, st *State, sp *FuncSpec) []*modTerm {
	var out []*modTerm
	for _, m := range sp.Modifies {
		sc := v.specCtx(fr, st)
		sc.entry = st
		switch m.Kind {
		case "deref":
			x := sc.eval(m.E)
			t := derefType(x.T)
			if t == nil {
				sc.fail(m.E, "modifies of a non-pointer")
			}
			out = append(out, &modTerm{prefix: []string{"H|" + typeKey(t) + "|"}, ref: st.scalar(x.V, x.T), text: m.Text})
		case "backing":
			x := sc.eval(m.E)
			sl, ok := x.V.(*SliceV)
			if !ok {
				sc.fail(m.E, "backing of a non-slice")
			}
			et := under(x.T).(*types.Slice).Elem()
			out = append(out, &modTerm{prefix: []string{"A|" + typeKey(et) + "|"}, ref: sl.Arr, text: m.Text})
		case "map":
			x := sc.eval(m.E)
			mt, ok := under(x.T).(*types.Map)
			if !ok {
				sc.fail(m.E, "map() of a non-map")
			}
			out = append(out, &modTerm{prefix: []string{mapDomName(mt), mapVal(mt, "")}, ref: st.scalar(x.V, x.T), text: m.Text})
		case "objs", "backings":
			t := sc.goType(m.Typ)
			if t == nil {
				sc.fail(m.Cond, "unknown type %s", m.Typ)
			}
			p := "H|"
			vt := types.Type(types.NewPointer(t))
			if m.Kind == "backings" {
				p = "A|"
				vt = nil
			}
			mc := m
			entry := st.clone()
			out = append(out, &modTerm{prefix: []string{p + typeKey(t) + "|"}, cond: func(r *Term) *Term {
				s2 := sc.bind(map[string]SV{mc.Var: {V: r, T: vt}})
				s2.st = entry
				s2.entry = entry
				return s2.evalBool(mc.Cond)
			}, text: m.Text})
		case "calls":
			out = append(out, &modTerm{prefix: []string{"G|"}, calls: true, text: m.Text})
		}
	}
	return out
}

// setup makes the arbitrary initial state of a function.
func (v *Verifier) setup(g *ssa.Function, env tenv, sp *FuncSpec) (*Frame, *State) {
	st := &State{heap: map[string]*Term{}, cells: map[int]*Cell{}, next: withRange(namedSym("next0", "Int"), big.NewInt(1), nil)}
	fr := &Frame{fn: g, env: env, spec: sp, loops: findLoops(g), rpo: rpoOf(g), cells: map[string]*LocV{}, names: map[string]Val{}, ghost: map[string]Val{}, top: true}
	if v.top == nil {
		v.top = fr
	}
	for i, p := range g.Params {
		t := subst(p.Type(), env)
		nm := p.Name()
		if sp != nil && i < len(sp.Params) {
			nm = sp.Params[i]
		}
		var x Val
		if sp != nil && sp.OptVal["dyn_"+nm] != "" { // dynamic type of an interface parameter
			sc := v.specCtx(fr, st)
			dt := sc.goType(sp.OptVal["dyn_"+nm])
			if dt == nil {
				unsup("opt dyn_%s: unknown type %s", nm, sp.OptVal["dyn_"+nm])
			}
			x = &IfaceV{Dyn: dt, V: st.freshVal(nm, dt)}
			if derefType(dt) != nil {
				st.assume(Lt(Int(0), x.(*IfaceV).V.(*Term)))
			}
		} else {
			x = st.freshVal(nm, t)
		}
		if tm, ok := x.(*Term); ok && tm.Sort == "Func" {
			st.assume(Not(Eq(tm, UF("nil_Func", "Func")))) // function arguments are given
		}
		fr.names[p.Name()] = x
		fr.names[nm] = x
		if i == 0 && g.Signature.Recv() != nil {
			if tm, ok := x.(*Term); ok && derefType(t) != nil {
				st.assume(Lt(Int(0), tm)) // methods are called on non-nil receivers
			}
		}
	}
	return fr, st
}

// runFrame2 runs a frame prepared by setup.
func (v *Verifier) runFrame2(fr *Frame, st *State) []outcome {
	var args []Val
	for _, p := range fr.fn.Params {
		args = append(args, fr.names[p.Name()])
	}
	g := fr.fn
	ps := &PS{st, map[ssa.Value]Val{}}
	for i, p := range g.Params {
		ps.env[p] = args[i]
	}
	fr.entry = st.clone()
	v.stack = append(v.stack, g)
	v.region(fr, []edge{{nil, g.Blocks[0], ps}}, nil, false)
	v.stack = v.stack[:len(v.stack)-1]
	return fr.rets
}

// callContract replaces a call by the callee's contract.
func (v *Verifier) callContract(fr *Frame, st *State, g *ssa.Function, env tenv, sp *FuncSpec, args []Val, pos string) []outcome {
	key := sp.Key
	if v.dry == 0 {
		v.used[key] = true
	}
	nf := &Frame{fn: g, env: env, spec: sp, names: map[string]Val{}, ghost: map[string]Val{}, cells: map[string]*LocV{}, types: paramTypes(g)}
	for i, t := range nf.types {
		if i < len(g.Params) {
			nf.names[g.Params[i].Name()] = args[i]
		}
		if i < len(sp.Params) {
			nf.names[sp.Params[i]] = args[i]
		}
		if i == 0 && g.Signature.Recv() != nil && derefType(t) != nil {
			if t, ok := args[i].(*Term); ok {
				v.safety(st, Not(Eq(t, Int(0))), "nil-receiver", pos)
			}
		}
		// locals whose address is passed live in the heap from here on
		if l, ok := args[i].(*LocV); ok && l.kind == "cell" && len(l.path) == 0 {
			st.refOf(l)
		}
	}
	nf.entry = st
	// opt lax:K - the callee may be called outside its precondition: it may then panic or return anything
	laxPre := tTrue
	lax := v.opts["lax:"+key]
	if lax {
		v.externs[key+" called outside its precondition is assumed to return or panic and to write nothing of the caller's"] = true
	}
	for _, r := range sp.Requires {
		sc := v.specCtx(nf, st)
		if lax {
			laxPre = And(laxPre, sc.evalBool(r.E))
			continue
		}
		lb := key
		if r.Label != "" {
			lb += "/" + r.Label
		}
		v.oblige(st, sc.evalBool(r.E), "call-pre", lb, pos)
	}
	if lax {
		v.safety(st.clone(), laxPre, "panic-in-"+key, pos)
	}
	for _, p := range sp.PanicsIf {
		sc := v.specCtx(nf, st)
		v.safety(st, Not(sc.evalBool(p.E)), "panic-in-"+key, pos)
	}
	if mz := sp.OptVal["measure"]; mz != "" && v.top != nil && v.top.fn == g && v.dry == 0 {
		_ = mz
	}
	if sp.Measure != nil && v.top != nil && v.top.fn == g {
		sc := v.specCtx(nf, st)
		now := sc.num(sc.eval(sp.Measure.E), sp.Measure.E).(*Term)
		sc2 := v.specCtx(v.top, v.top.entry)
		was := sc2.num(sc2.eval(sp.Measure.E), sp.Measure.E).(*Term)
		v.oblige(st, And(Le(Int(0), now), Lt(now, was)), "recursion-terminates", key, pos)
	}
	pre := st.clone()
	nf.entry = pre
	if sp.Trusted != "" { // make the specification-only fields it speaks of known
		sc := v.specCtx(nf, st.clone())
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := subst(rs.At(i).Type(), env)
			sc.result = append(sc.result, SV{sc.st.freshVal("res", t), t})
		}
		for _, e := range sp.Ensures {
			sc.evalBool(e.E)
		}
	}
	eff := v.effects(g, env, sp)
	mods := v.modTerms(nf, pre, sp)
	post := st
	// allocation
	alloc := false
	names := map[string]string{}
	for n, e := range eff {
		names[n] = e.sort
	}
	for _, m := range mods {
		for n, s := range knownHeaps(post, m) {
			if _, ok := names[n]; !ok && sp.Trusted != "" {
				names[n] = s
				eff[n] = &effect{sort: s}
			}
		}
	}
	for n := range names {
		if eff[n].fresh {
			alloc = true
		}
	}
	if alloc || sp.Opts["allocates"] || anyPointerResult(g) {
		nx := withRange(freshSym("next", "Int"), big.NewInt(1), nil)
		post.assume(Le(pre.next, nx))
		post.next = nx
	}
	for _, n := range sortedKeys(names) {
		srt := names[n]
		h := pre.getHeap(n, srt)
		_, es := splitArr(srt)
		if strings.HasPrefix(n, "G|") {
			ok := false
			for _, m := range mods {
				if m.calls {
					ok = true
				}
			}
			if ok {
				post.heap[n] = freshSym("hv_"+cleanName(n), srt)
				logStore(n, freshSym("anyf", "Func"))
			}
			continue
		}
		var refs []*Term
		var conds []func(*Term) *Term
		for _, m := range mods {
			if m.match(n) {
				if m.ref != nil {
					refs = append(refs, m.ref)
				} else {
					conds = append(conds, m.cond)
				}
			}
		}
		if !eff[n].fresh && len(conds) == 0 {
			cur := h
			for _, r := range refs {
				fv := freshSym("new", es)
				logStore(n, r)
				cur = Store(cur, r, fv)
			}
			post.heap[n] = cur
			continue
		}
		nh := freshSym("hv_"+cleanName(n), srt)
		b := freshBVar("r", "Int")
		cs := []*Term{Lt(b, pre.next)}
		for _, r := range refs {
			cs = append(cs, Not(Eq(b, r)))
			logStore(n, r)
		}
		for _, c := range conds {
			cs = append(cs, Not(c(b)))
		}
		if len(conds) > 0 || eff[n].fresh {
			logStore(n, freshSym("anyref", "Int"))
		}
		post.assume(Forall([]*Term{b}, Implies(And(cs...), Eq(App("select", es, nh, b), App("select", es, h, b))), []*Term{App("select", es, nh, b)}))
		post.heap[n] = nh
	}
	var res []Val
	var rsv []SV
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := subst(rs.At(i).Type(), env)
		var x Val
		if d := resultDyn(g, i); d != nil && isIface(t) {
			d = subst(d, env)
			x = &IfaceV{Dyn: d, V: post.freshVal("res_"+g.Name(), d)}
		} else {
			x = post.freshVal("res_"+g.Name(), t)
		}
		res = append(res, x)
		rsv = append(rsv, SV{x, t})
	}
	for _, e := range sp.Ensures {
		sc := v.specCtx(nf, post)
		sc.entry = pre
		sc.result = rsv
		post.assume(Implies(laxPre, sc.evalBool(e.E)))
	}
	if os.Getenv("GOSTV_DEBUG") != "" && v.dry == 0 {
		fmt.Fprintln(os.Stderr, "contract", key, "effects", sortedKeys(names))
	}
	return []outcome{{post, res}}
}

func isIface(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok && !isTypeParam(t)
}

// resultDyn: the one concrete type of the i-th (interface) result, if the body always returns that type.
func resultDyn(g *ssa.Function, i int) types.Type {
	var out types.Type
	ok := true
	var look func(x ssa.Value, depth int)
	look = func(x ssa.Value, depth int) {
		if depth > 4 {
			ok = false
			return
		}
		switch y := x.(type) {
		case *ssa.MakeInterface:
			if out != nil && !types.Identical(out, y.X.Type()) {
				ok = false
			}
			out = y.X.Type()
		case *ssa.ChangeInterface:
			look(y.X, depth)
		case *ssa.UnOp: // a local variable, in the unoptimised form
			a, isA := y.X.(*ssa.Alloc)
			if !isA || a.Heap {
				ok = false
				return
			}
			for _, r := range *a.Referrers() {
				switch z := r.(type) {
				case *ssa.Store:
					if z.Addr != a {
						ok = false
						return
					}
					look(z.Val, depth+1)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					ok = false
				}
			}
		default:
			ok = false
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, isR := in.(*ssa.Return); isR {
				look(r.Results[i], 0)
			}
		}
	}
	if !ok {
		return nil
	}
	return out
}

func knownHeaps(st *State, m *modTerm) map[string]string {
	out := map[string]string{}
	for n, s := range heapSorts {
		if m.match(n) {
			out[n] = s
		}
	}
	return out
}

func anyPointerResult(g *ssa.Function) bool {
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !isTypeParam(rs.At(i).Type()) && hasRefs(rs.At(i).Type(), 0) {
			return true
		}
	}
	return false
}
func hasRefs(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if isTypeParam(t) {
		return false
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// frame obligations: everything outside the modifies clauses that existed before is unchanged.
func (v *Verifier) frameObls(fr *Frame, o outcome, sp *FuncSpec) {
	mods := v.modTerms(fr, fr.entry, sp)
	for _, n := range sortedKeys(o.st.heap) {
		h := o.st.heap[n]
		h0 := fr.entry.getHeap(n, h.Sort)
		if h == h0 {
			continue
		}
		if strings.HasPrefix(n, "G|") {
			ok := false
			for _, m := range mods {
				ok = ok || m.calls
			}
			if !ok {
				v.oblige(o.st, Eq(h, h0), "frame", cleanName(n), "")
			}
			continue
		}
		r := withRange(freshSym("r", "Int"), big.NewInt(1), nil) // 0 is nil: no object lives there
		cs := []*Term{Lt(r, fr.entry.next)}
		for _, m := range mods {
			if !m.match(n) {
				continue
			}
			if m.ref != nil {
				cs = append(cs, Not(Eq(r, m.ref)))
			} else {
				cs = append(cs, Not(m.cond(r)))
			}
		}
		_, es := splitArr(h.Sort)
		g := Implies(And(cs...), Eq(App("select", es, h, r), App("select", es, h0, r)))
		save := o.st.pc
		v.oblige(o.st, g, "frame", cleanName(n), "")
		o.st.pc = save
	}
}

// useLemmas adds the lemma instances a contract asks for, where they can be evaluated.
func (v *Verifier) useLemmas(fr *Frame, st *State) {
	if fr.spec == nil {
		return
	}
	for _, u := range fr.spec.Uses {
		u := u
		c := &cand{"use " + u.Text, true, func(s *State) *Term {
			sc := v.specCtx(fr, s)
			sc.inLoop = true
			return v.lemmaInstance(sc, u.E)
		}}
		if t := evalCand(c, st); t != nil {
			st.assumeOnce(t)
		}
	}
}

// lemmaInstance evaluates `use L(args)` or `use forall x :: L(args)`.
func (v *Verifier) lemmaInstance(sc *SpecCtx, e *Expr) *Term {
	if e.Op == "call" {
		l := v.P.ss.lemmas[e.Name]
		if l == nil {
			sc.fail(e, "unknown lemma %s", e.Name)
		}
		if len(e.Args) != len(l.Vars) {
			sc.fail(e, "lemma %s takes %d arguments", e.Name, len(l.Vars))
		}
		v.lemmas[e.Name] = true
		b := map[string]SV{}
		for i, g := range l.Vars {
			x := sc.eval(e.Args[i])
			if isNum(x) && !bvMode {
				x = SV{V: sc.num(x, e)}
			}
			b[g.Name] = x
		}
		n := *sc
		n.binds = b
		var rs, es []*Term
		for _, r := range l.Requires {
			rs = append(rs, n.evalBool(r.E))
		}
		for _, r := range l.Ensures {
			es = append(es, n.evalBool(r.E))
		}
		return Implies(And(rs...), And(es...))
	}
	if e.Op == "forall" {
		sc.v = v
		return sc.quantBody(e, func(cc *SpecCtx) *Term { return v.lemmaInstance(cc, e.Args[0]) })
	}
	if e.Op == "bin" && e.Name == "==>" {
		return Implies(sc.evalBool(e.Args[0]), v.lemmaInstance(sc, e.Args[1]))
	}
	sc.fail(e, "lemma application expected")
	return nil
}
