package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (v *Verifier) keySort(mt *types.Map) string {
	s := scalarSort(mt.Key())
	if s == "" {
		unsup("map key type %s", typeKey(mt.Key()))
	}
	return s
}

var visitedTypes = map[string]types.Type{}

// visitedType is a marker type for ghost visited-sets so that loops can havoc them.
func visitedType(mt *types.Map) types.Type {
	k := typeKey(mt.Key())
	if t, ok := visitedTypes[k]; ok {
		return t
	}
	ks := scalarSort(mt.Key())
	n := types.NewNamed(types.NewTypeName(0, nil, "$visited_"+k, nil), types.NewStruct(nil, nil), nil)
	visitedTypes[k] = n
	visitedKeys[typeKey(n)] = mt.Key()
	leafMemo["false"+typeKey(n)] = []leaf{{"", arrSort(ks, "Bool"), nil, "set"}}
	ghostSorts[typeKey(n)] = arrSort(ks, "Bool")
	return n
}

var visitedKeys = map[string]types.Type{}
var ghostSorts = map[string]string{}

func cardUF(d *Term) *Term {
	ks, _ := splitArr(d.Sort)
	if d.Op == "constarr" && d.Args[0].Op == "false" {
		return Int(0)
	}
	n := "card_" + cleanName(ks)
	if _, ok := ufDecls[n]; !ok {
		s := freshBVar("s", d.Sort)
		k := freshBVar("k", ks)
		c := UF(n, "Int", s)
		sel := App("select", "Bool", s, k)
		st := App("store", d.Sort, s, k, tTrue)
		rm := App("store", d.Sort, s, k, tFalse)
		cst := UF(n, "Int", st)
		s2 := freshBVar("t", d.Sort)
		c2 := UF(n, "Int", s2)
		k2 := freshBVar("k", ks)
		sub := Forall([]*Term{k2}, Implies(App("select", "Bool", s, k2), App("select", "Bool", s2, k2)), []*Term{App("select", "Bool", s, k2)})
		crm := UF(n, "Int", rm)
		// cardinality means something for finite sets only: every set of a program or a contract is one
		fn := "fin" + n[4:]
		fin := func(x *Term) *Term { return UF(fn, "Bool", x) }
		axioms = append(axioms,
			&Axiom{Name: n + "_fin0", Kind: "definition", Trig: []string{n}, T: fin(ConstArr(d.Sort, tFalse))},
			&Axiom{Name: n + "_pos", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s}, Le(Int(0), c), []*Term{c})},
			&Axiom{Name: n + "_in", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s, k}, Implies(And(fin(s), sel), Lt(Int(0), c)), []*Term{c, sel})},
			&Axiom{Name: n + "_add", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s, k}, Implies(fin(s), And(fin(st), Eq(cst, Add(c, Ite(sel, Int(0), Int(1)))))), []*Term{cst})},
			&Axiom{Name: n + "_rm", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s, k}, Implies(fin(s), And(fin(rm), Eq(crm, Sub(c, Ite(sel, Int(1), Int(0)))))), []*Term{crm})},
			&Axiom{Name: n + "_subset", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s, s2}, Implies(And(fin(s2), sub), And(Le(c, c2), Implies(Eq(c, c2), Eq(s, s2)))), []*Term{c, c2})},
			&Axiom{Name: n + "_witness", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s}, Implies(And(fin(s), Lt(Int(0), c)), App("select", "Bool", s, UF(n+"_wit", ks, s))), []*Term{c})},
			&Axiom{Name: n + "_empty", Kind: "definition", Trig: []string{n}, T: Forall([]*Term{s}, Implies(And(fin(s), Eq(c, Int(0))), Eq(s, ConstArr(d.Sort, tFalse))), []*Term{c})},
		)
	}
	r := UF(n, "Int", d)
	if !d.bound {
		withRange(r, big.NewInt(0), nil)
	}
	return r
}

func (s *State) dom(mt *types.Map, m *Term) *Term {
	ks := scalarSort(mt.Key())
	h := s.getHeap(mapDomName(mt), arrSort("Int", arrSort(ks, "Bool")))
	return Select(h, m)
}
func mapDomName(mt *types.Map) string { return "MD|" + typeKey(mt.Key()) + "|" + typeKey(mt.Elem()) }

func (v *Verifier) initMap(st *State, mt *types.Map, r *Term) {
	ks := v.keySort(mt)
	n := mapDomName(mt)
	h := st.getHeap(n, arrSort("Int", arrSort(ks, "Bool")))
	st.hstore(n, h, r, ConstArr(arrSort(ks, "Bool"), tFalse))
}
func (v *Verifier) mapSet(st *State, mt *types.Map, m *Term, k, val Val) {
	ks := v.keySort(mt)
	kt := st.scalar(k, mt.Key())
	n := mapDomName(mt)
	h := st.getHeap(n, arrSort("Int", arrSort(ks, "Bool")))
	st.hstore(n, h, m, Store(Select(h, m), kt, tTrue))
	ts := st.flatten(val, mt.Elem())
	for i, lf := range leavesOf(mt.Elem()) {
		n := mapVal(mt, lf.path)
		h := st.getHeap(n, arrSort("Int", arrSort(ks, lf.sort)))
		st.hstore(n, h, m, Store(Select(h, m), kt, ts[i]))
	}
	// cardinality after insertion/overwriting is within the address space
	st.assumeOnce(Le(cardUF(st.dom(mt, m)), Int(maxLen)))
}
func (v *Verifier) mapDelete(st *State, mt *types.Map, m *Term, k Val) {
	ks := v.keySort(mt)
	kt := st.scalar(k, mt.Key())
	n := mapDomName(mt)
	h := st.getHeap(n, arrSort("Int", arrSort(ks, "Bool")))
	// delete on a nil map is a no-op
	logStore(n, m)
	st.heap[n] = Ite(Eq(m, Int(0)), h, Store(h, m, Store(Select(h, m), kt, tFalse)))
}
func (st *State) mapRaw(mt *types.Map, m, kt *Term) []*Term {
	ks := scalarSort(mt.Key())
	var ts []*Term
	for _, lf := range leavesOf(mt.Elem()) {
		h := st.getHeap(mapVal(mt, lf.path), arrSort("Int", arrSort(ks, lf.sort)))
		ts = append(ts, rangeLeaf(Select(Select(h, m), kt), lf))
	}
	return ts
}
func (v *Verifier) mapGet(st *State, mt *types.Map, m *Term, k Val) (Val, *Term) {
	kt := st.scalar(k, mt.Key())
	has := And(Not(Eq(m, Int(0))), Select(st.dom(mt, m), kt))
	ts := st.mapRaw(mt, m, kt)
	lv := leavesOf(mt.Elem())
	st.wfFacts(lv, ts)
	z := st.flatten(zeroOf(mt.Elem()), mt.Elem())
	for i := range ts {
		ts[i] = Ite(has, ts[i], z[i])
	}
	return build(mt.Elem(), ts), has
}
func (v *Verifier) mapLen(st *State, mt *types.Map, m *Term) *Term {
	c := cardUF(st.dom(mt, m))
	st.assumeOnce(Le(c, Int(maxLen)))
	return Ite(Eq(m, Int(0)), Int(0), c)
}

func (v *Verifier) next(fr *Frame, ps *PS, x *ssa.Next) {
	st := ps.st
	it := v.get(fr, ps, x.Iter).(*MapIterV)
	if it.str != nil {
		// Go decodes the string rune by rune: the cell counts the runes already delivered
		n := term(st.cells[it.cell].val)
		rc := runeCount(it.str)
		st.assume(And(Le(Int(0), n), Le(n, rc)))
		ok := Lt(n, rc)
		c := *st.cells[it.cell]
		c.val = Ite(ok, Add(n, Int(1)), n)
		st.cells[it.cell] = &c
		ps.env[x] = TupleV{ok, runeOff(it.str, n), withRange(UF("rune_at", "Int", it.str, n), big.NewInt(-0x80000000), big.NewInt(0x7fffffff))}
		return
	}
	mt := it.mt
	ks := v.keySort(mt)
	vis := term(st.cells[it.cell].val)
	d := st.dom(mt, it.m)
	ok := freshSym("ok", "Bool")
	k := rangeLeaf(freshSym("key", ks), leavesOf(mt.Key())[0])
	b := freshBVar("k", ks)
	st.assume(Implies(ok, And(Not(Eq(it.m, Int(0))), Select(d, k), Not(Select(vis, k)))))
	st.assume(Implies(And(Not(ok), Not(Eq(it.m, Int(0)))), Forall([]*Term{b}, Implies(Select(d, b), Select(vis, b)), []*Term{Select(d, b)}, []*Term{Select(vis, b)})))
	// (extensionality) a visited set within the domain is then the domain
	st.assume(Implies(And(Not(ok), Not(Eq(it.m, Int(0))), Forall([]*Term{b}, Implies(Select(vis, b), Select(d, b)), []*Term{Select(vis, b)})), Eq(vis, d)))
	st.wfFacts(leavesOf(mt.Key()), []*Term{k})
	c := *st.cells[it.cell]
	c.val = Ite(ok, Store(vis, k, tTrue), vis)
	st.cells[it.cell] = &c
	ts := st.mapRaw(mt, it.m, k)
	lv := leavesOf(mt.Elem())
	st.wfFacts(lv, ts)
	ps.env[x] = TupleV{ok, build(mt.Key(), []*Term{k}), build(mt.Elem(), ts)}
}
