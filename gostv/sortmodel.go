package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Model of sort.Slice and sort.SliceStable: the region of the slice is permuted, and it ends up ordered by the comparison
// function, provided that function compares the elements only (checked) by a strict weak order (an obligation).
func sortModel(stable bool) externModel {
	return func(v *Verifier, fr *Frame, st *State, f *ssa.Function, args []Val, at []types.Type, rt types.Type, pos string) []outcome {
		iv, ok := args[0].(*IfaceV)
		if !ok {
			unsup("sort of an unknown value")
		}
		sl, ok := iv.V.(*SliceV)
		if !ok {
			unsup("sort of %T", iv.V)
		}
		et := under(iv.Dyn).(*types.Slice).Elem()
		lo, hi := sl.Off, Add(sl.Off, sl.Len)
		pi := "perm_of_" + freshSym("sort", "Int").Name
		inv := pi + "_inv"
		in := func(x *Term) *Term { return And(Le(lo, x), Lt(x, hi)) }
		p := func(x *Term) *Term { return UF(pi, "Int", x) }
		q := func(x *Term) *Term { return UF(inv, "Int", x) }
		k := freshBVar("k", "Int")
		st.assume(Forall([]*Term{k}, Implies(in(k), And(in(p(k)), Eq(q(p(k)), k))), []*Term{p(k)}))
		st.assume(Forall([]*Term{k}, Implies(in(k), And(in(q(k)), Eq(p(q(k)), k))), []*Term{q(k)}))
		lv := leavesOf(et)
		var before, after []*Term
		for _, lf := range lv {
			nm := elemHeap(et, lf.path)
			h := st.getHeap(nm, arrSort("Int", arrSort("Int", lf.sort)))
			a0 := Select(h, sl.Arr)
			a1 := freshSym("sorted", arrSort("Int", lf.sort))
			sel1 := App("select", lf.sort, a1, k)
			st.assume(Forall([]*Term{k}, Eq(sel1, Ite(in(k), Select(a0, p(k)), Select(a0, k))), []*Term{sel1}))
			st.hstore(nm, h, sl.Arr, a1)
			before, after = append(before, a0), append(after, a1)
		}
		// the comparison function, on two places of the permuted slice
		i, j := freshSym("i", "Int"), freshSym("j", "Int")
		c := st.clone()
		c.assume(And(Le(Int(0), i), Lt(i, sl.Len), Le(Int(0), j), Lt(j, sl.Len)))
		base := c.pc
		intT := types.Typ[types.Int]
		sig := under(at[1]).(*types.Signature)
		outs := v.callValue(fr, c, args[1], at[1], []Val{i, j}, sig.Results().At(0).Type(), pos)
		_ = intT
		if len(outs) == 0 {
			unsup("comparison function without outcome")
		}
		r := outs[len(outs)-1].res[0]
		for n := len(outs) - 2; n >= 0; n-- {
			cond, _ := suffix(outs[n].st.pc, base)
			m, ok := mergeVals(outs[n].st, st, And(cond...), outs[n].res[0], r, sig.Results().At(0).Type())
			if !ok {
				unsup("comparison function cannot be merged")
			}
			r = m
		}
		less := term(r)
		ex := func(n string) (out []*Term) {
			for _, lf := range lv {
				out = append(out, freshSym(n, lf.sort))
			}
			return
		}
		e1, e2 := ex("x"), ex("y")
		sub := map[*Term]*Term{}
		for n := range lv {
			sub[Select(after[n], Add(lo, i))] = e1[n]
			sub[Select(after[n], Add(lo, j))] = e2[n]
		}
		less = substTerm(less, sub)
		bad := map[*Term]bool{i: true, j: true}
		for _, a := range after {
			bad[a] = true
		}
		if mentions(less, bad, map[*Term]bool{}) {
			unsup("the comparison function does not compare the two elements of the sorted slice")
		}
		L := func(x, y []*Term) *Term {
			m := map[*Term]*Term{}
			for n := range lv {
				m[e1[n]], m[e2[n]] = x[n], y[n]
			}
			return substTerm(less, m)
		}
		a, b, d := ex("a"), ex("b"), ex("c")
		v.oblige(st, Implies(L(a, b), Not(L(b, a))), "order", "comparison is asymmetric", pos)
		v.oblige(st, Implies(And(Not(L(a, b)), Not(L(b, d))), Not(L(a, d))), "order", "comparison is a weak order", pos)
		// sorted
		x, y := freshBVar("x", "Int"), freshBVar("y", "Int")
		at1 := func(n *Term) (out []*Term) {
			for m, lf := range lv {
				out = append(out, App("select", lf.sort, after[m], n))
			}
			return
		}
		st.assume(Forall([]*Term{x, y}, Implies(And(Le(lo, x), Lt(x, y), Lt(y, hi)), Not(L(at1(y), at1(x)))), []*Term{at1(x)[0], at1(y)[0]}))
		for _, n := range map[bool][]string{false: {"permd"}, true: {"permd", "stably"}}[stable] {
			if u := v.P.ss.ufs[n]; u != nil && len(lv) == 1 {
				st.assume(v.polyUF(u, map[string]types.Type{"E": et}, after[0], lo, before[0], lo, sl.Len))
			}
		}
		return one(st)
	}
}

// polyUF applies a polymorphic spec function returning a boolean.
func (v *Verifier) polyUF(u *UFSpec, tb map[string]types.Type, args ...*Term) *Term {
	return v.polyApp(u, tb, "Bool", args...)
}
func (v *Verifier) polyApp(u *UFSpec, tb map[string]types.Type, sort string, args ...*Term) *Term {
	name := u.Name
	for _, n := range u.TV {
		name += "_" + cleanName(typeKey(tb[n]))
	}
	v.polyAxioms(u, name, tb)
	return UF(name, sort, args...)
}

func mentions(t *Term, bad, memo map[*Term]bool) bool {
	if bad[t] {
		return true
	}
	if memo[t] {
		return false
	}
	memo[t] = true
	for _, a := range t.Args {
		if mentions(a, bad, memo) {
			return true
		}
	}
	return false
}
