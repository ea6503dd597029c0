package main

import (
	"encoding/hex"
	"fmt"
)

var strLits = map[*Term]string{}

// strLit is a string constant.
func strLit(s string) *Term {
	n := "str_" + hex.EncodeToString([]byte(s))
	if len(s) == 0 {
		n = "str_empty"
	}
	t := UF(n, "Str")
	if _, ok := strLits[t]; !ok {
		strLits[t] = s
		cs := []*Term{Eq(UF("str_len", "Int", t), Int(int64(len(s)))), Eq(UF("str_lit_id", "Int", t), Int(int64(len(strLits))))}
		for i := 0; i < len(s) && i < 8; i++ {
			cs = append(cs, Eq(UF("str_at", "Int", t, Int(int64(i))), Int(int64(s[i]))))
		}
		axioms = append(axioms, &Axiom{Name: n, Trig: []string{n}, T: And(cs...), Kind: "definition"})
	}
	return t
}

func strParts(t *Term) []*Term {
	if t.Op == "str_cat" {
		return append(strParts(t.Args[0]), strParts(t.Args[1])...)
	}
	return []*Term{t}
}

// strCat concatenates, in a right-nested normal form with constants merged.
func strCat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		for _, p := range strParts(t) {
			if s, ok := strLits[p]; ok {
				if s == "" {
					continue
				}
				if len(parts) > 0 {
					if q, ok := strLits[parts[len(parts)-1]]; ok {
						parts[len(parts)-1] = strLit(q + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return strLit("")
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = UF("str_cat", "Str", parts[i], r)
	}
	return r
}

func strLen(t *Term) *Term {
	if s, ok := strLits[t]; ok {
		return Int(int64(len(s)))
	}
	if t.Op == "str_cat" {
		return Add(strLen(t.Args[0]), strLen(t.Args[1]))
	}
	r := UF("str_len", "Int", t)
	if !t.bound {
		return withRange(r, Int(0).N, Int(maxLen).N)
	}
	return r
}

func initStrAxioms() {
	a, b, c := freshBVar("a", "Str"), freshBVar("b", "Str"), freshBVar("c", "Str")
	cat := func(x, y *Term) *Term { return UF("str_cat", "Str", x, y) }
	l := func(x *Term) *Term { return UF("str_len", "Int", x) }
	axioms = append(axioms,
		&Axiom{Name: "str_assoc", Kind: "definition", Trig: []string{"str_cat"}, T: Forall([]*Term{a, b, c}, Eq(cat(cat(a, b), c), cat(a, cat(b, c))), []*Term{cat(cat(a, b), c)})},
		&Axiom{Name: "str_catlen", Kind: "definition", Trig: []string{"str_cat", "str_len"}, T: Forall([]*Term{a, b}, Eq(l(cat(a, b)), Add(l(a), l(b))), []*Term{cat(a, b)})},
		&Axiom{Name: "str_len0", Kind: "definition", Trig: []string{"str_len"}, T: Forall([]*Term{a}, And(Le(Int(0), l(a)), Implies(Eq(l(a), Int(0)), Eq(a, strLit("")))), []*Term{l(a)})},
		&Axiom{Name: "str_empty_cat", Kind: "definition", Trig: []string{"str_cat", "str_empty"}, T: Forall([]*Term{a}, And(Eq(cat(a, strLit("")), a), Eq(cat(strLit(""), a), a)), []*Term{cat(a, strLit(""))}, []*Term{cat(strLit(""), a)})},
	)
	i := freshBVar("i", "Int")
	at := func(x, i *Term) *Term { return UF("str_at", "Int", x, i) }
	axioms = append(axioms,
		&Axiom{Name: "str_byte", Kind: "definition", Trig: []string{"str_at"}, T: Forall([]*Term{a, i}, And(Le(Int(0), at(a, i)), Le(at(a, i), Int(255))), []*Term{at(a, i)})},
		&Axiom{Name: "str_cat_at", Kind: "definition", Trig: []string{"str_at", "str_cat"}, T: Forall([]*Term{a, b, i}, Implies(Le(Int(0), i), Eq(at(cat(a, b), i), Ite(Lt(i, l(a)), at(a, i), at(b, Sub(i, l(a)))))), []*Term{at(cat(a, b), i)})},
	)
}

func runeCount(s *Term) *Term {
	r := UF("rune_count", "Int", s)
	if s.bound {
		return r
	}
	return withRange(r, Int(0).N, Int(maxLen).N)
}
func runeOff(s, n *Term) *Term { return UF("rune_off", "Int", s, n) }

func initRuneAxioms() {
	a, n, i := freshBVar("a", "Str"), freshBVar("n", "Int"), freshBVar("i", "Int")
	l, rc := UF("str_len", "Int", a), UF("rune_count", "Int", a)
	sub := UF("str_sub", "Str", a, UF("rune_off", "Int", a, n), l)
	in := And(Le(Int(0), n), Le(n, rc))
	axioms = append(axioms,
		&Axiom{Name: "rune_count", Kind: "definition", Trig: []string{"rune_count"}, T: Forall([]*Term{a}, And(Le(Int(0), rc), Le(rc, l), Implies(Lt(Int(0), l), Lt(Int(0), rc)), Eq(runeOff(a, Int(0)), Int(0)), Eq(runeOff(a, rc), l)), []*Term{rc})},
		&Axiom{Name: "rune_off", Kind: "definition", Trig: []string{"rune_off"}, T: Forall([]*Term{a, n}, Implies(in, And(Le(n, runeOff(a, n)), Le(runeOff(a, n), l), Implies(Lt(n, rc), Lt(runeOff(a, n), l)))), []*Term{runeOff(a, n)})},
		&Axiom{Name: "rune_sub", Kind: "definition", Trig: []string{"str_sub", "rune_off"}, T: Forall([]*Term{a, n}, Implies(in, And(Eq(UF("rune_count", "Int", sub), Sub(rc, n)), Eq(UF("str_len", "Int", sub), Sub(l, runeOff(a, n))))), []*Term{sub})},
		&Axiom{Name: "rune_sub_at", Kind: "definition", Trig: []string{"str_sub", "rune_off", "rune_at"}, T: Forall([]*Term{a, n, i}, Implies(And(in, Le(Int(0), i)), And(Eq(UF("rune_at", "Int", sub, i), UF("rune_at", "Int", a, Add(n, i))))), []*Term{sub, UF("rune_at", "Int", sub, i)})},
		&Axiom{Name: "rune_range", Kind: "definition", Trig: []string{"rune_at"}, T: Forall([]*Term{a, i}, And(Le(Int(0), UF("rune_at", "Int", a, i)), Le(UF("rune_at", "Int", a, i), Int(0x10ffff))), []*Term{UF("rune_at", "Int", a, i)})},
	)
}

var _ = fmt.Sprint
