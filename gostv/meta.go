package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Loop hints may contain metavariables, names starting with '?': ?i stands for any integer the loop changes (or one more),
// ?x for a local of a type parameter's type, ?s for any slice reachable from a local variable, ?p for any pointer, ?z for any string, ?b for any truth value (?b and ?c: two of them), ?h for any map, ?v for the set of keys a map iteration has visited. Every instantiation is a candidate
// invariant; the wrong ones are eliminated. Hints therefore do not depend on the names or kinds of locals.

func metaVars(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.Op == "name" && strings.HasPrefix(e.Name, "?") {
		out[e.Name] = true
	}
	for _, x := range e.Args {
		metaVars(x, out)
	}
	for _, x := range e.Lo {
		metaVars(x, out)
	}
	for _, ps := range e.Pats {
		for _, x := range ps {
			metaVars(x, out)
		}
	}
}

type apath struct {
	cell  int
	steps []int // field index, -1 for a dereference, -2 for the dynamic value of an interface
	name  string
	plus  int64
}

func (c *SpecCtx) evalPath(p *apath) (sv SV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			sv, ok = SV{}, false // the value at this path is not of the expected shape
		}
	}()
	cell := c.st.cells[p.cell]
	if cell == nil || cell.typ == nil {
		return SV{}, false
	}
	if _, g := ghostSorts[typeKey(cell.typ)]; g {
		return SV{V: cell.val, T: visitedKeys[typeKey(cell.typ)]}, true
	}
	l := &LocV{kind: "cell", cell: p.cell, base: cell.typ, typ: cell.typ}
	t := cell.typ
	skip := false
	for k, s := range p.steps {
		if s == -2 {
			iv := c.st.loadLoc(l).(*IfaceV)
			// (a pointer: dereferenced next, or the end of the path)
			t = iv.Dyn
			if len(p.steps) > 0 && k == len(p.steps)-1 {
				return SV{V: iv.V, T: t}, true
			}
			l = asLoc(iv.V, t)
			t = derefType(t)
			skip = true
			continue
		}
		if skip {
			skip = false
			continue
		}
		if s == -1 {
			v := c.st.loadLoc(l)
			if v == nil {
				return SV{}, false
			}
			l = asLoc(v, t)
			t = derefType(t)
			continue
		}
		st := structOf(t)
		n := *l
		n.path = append(append([]int{}, l.path...), s)
		t = st.Field(s).Type()
		n.typ = t
		l = &n
	}
	v := c.st.loadLoc(l)
	if v == nil {
		return SV{}, false
	}
	if p.plus != 0 {
		x, ok := v.(*Term)
		if !ok {
			return SV{}, false
		}
		return SV{V: Add(x, Int(p.plus))}, true
	}
	return SV{V: v, T: t}, true
}

// metaOptions lists what a metavariable may stand for.
func (v *Verifier) metaOptions(kind byte, ps *PS, head *State, sf *Frame) []*apath {
	var out []*apath
	var ids []int
	for id, c := range ps.st.cells {
		if c.typ == nil {
			continue
		}
		if _, g := ghostSorts[typeKey(c.typ)]; g {
			if kind == 'v' && c.val != head.cells[id].val {
				out = append(out, &apath{cell: id, name: "visited"})
			}
			continue
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	seen := map[string]bool{}
	for _, id := range ids {
		id := id
		c := ps.st.cells[id]
		var walk func(t types.Type, steps []int, name string, derefs, depth int)
		walk = func(t types.Type, steps []int, name string, derefs, depth int) {
			p := &apath{cell: id, steps: append([]int{}, steps...), name: name}
			use := func(plus int64) {
				q := *p
				q.plus = plus
				if plus != 0 {
					q.name = fmt.Sprintf("%s%+d", p.name, plus)
				}
				a, ok1 := v.specCtx(sf, ps.st).evalPath(&q)
				b, ok2 := v.specCtx(sf, head).evalPath(&q)
				if !ok1 || !ok2 {
					return
				}
				if kind == 'i' {
					x, okx := a.V.(*Term)
					y, oky := b.V.(*Term)
					if !okx || !oky || x == y || x.Sort != "Int" {
						return
					}
					if seen[fmt.Sprint(y.id)] {
						return
					}
					seen[fmt.Sprint(y.id)] = true
				} else {
					k := func() (k string) { // a value holding an interior pointer has no terms
						defer func() {
							if recover() != nil {
								k = q.name
							}
						}()
						return fmt.Sprint(head.flatten(b.V, t))
					}()
					if seen[k] {
						return
					}
					seen[k] = true
				}
				out = append(out, &q)
			}
			if _, tp := types.Unalias(t).(*types.TypeParam); tp {
				if kind == 'x' {
					use(0)
				}
				return
			}
			switch u := under(t).(type) {
			case *types.Interface:
				b, ok := v.specCtx(sf, head).evalPath(p)
				if !ok {
					break
				}
				if iv, ok := b.V.(*IfaceV); ok && iv.Dyn != nil && derefs < 1 {
					if _, ok := under(iv.Dyn).(*types.Pointer); ok {
						walk(iv.Dyn, append(append([]int{}, steps...), -2), name, derefs, depth)
					}
				}
			case *types.Map:
				if kind == 'h' {
					use(0)
				}
			case *types.Slice:
				if kind == 's' {
					use(0)
				}
			case *types.Basic:
				if kind == 'i' {
					if _, ok := intInfoOf(t); ok {
						use(0)
						use(1)
					}
				}
				if kind == 'z' && isString(t) || kind == 'b' && u.Info()&types.IsBoolean != 0 {
					use(0)
				}
			case *types.Pointer:
				if kind == 'p' {
					use(0)
				}
				if derefs < 1 && structOf(u.Elem()) != nil {
					walk(u.Elem(), append(append([]int{}, steps...), -1), name, derefs+1, depth+1)
				}
			case *types.Struct:
				if kind == 'p' && depth == 0 && u.NumFields() > 0 {
					use(0)
				}
				if depth < 4 {
					for i := 0; i < u.NumFields(); i++ {
						walk(u.Field(i).Type(), append(append([]int{}, steps...), i), name+"."+u.Field(i).Name(), derefs, depth+1)
					}
				}
			}
		}
		nm := c.name
		if nm == "" {
			nm = fmt.Sprintf("cell%d", id)
		}
		walk(c.typ, nil, nm, 0, 0)
	}
	return out
}

// metaInstances lists all bindings of the metavariables of a hint.
func (v *Verifier) metaInstances(e *Expr, ps *PS, head *State, sf *Frame, memo map[byte][]*apath) []map[string]*apath {
	mv := map[string]bool{}
	metaVars(e, mv)
	res := []map[string]*apath{{}}
	for _, n := range sortedKeys(mv) {
		k := n[1]
		if k >= 'i' && k <= 'n' {
			k = 'i'
		}
		if k == 't' {
			k = 's'
		}
		if k == 'w' {
			k = 'v'
		}
		if k == 'y' {
			k = 'x'
		}
		if k == 'c' {
			k = 'b'
		}
		if k == 'u' {
			k = 'z'
		}
		if k == 'q' {
			k = 'p'
		}
		if _, ok := memo[k]; !ok {
			memo[k] = v.metaOptions(k, ps, head, sf)
		}
		var next []map[string]*apath
		for _, r := range res {
			for _, p := range memo[k] {
				if strings.HasSuffix(n, "_") && (len(p.steps) > 0 || p.plus != 0) {
					continue // ?i_: a local variable itself
				}
				if b := r["?b"]; n == "?c" && b != nil && b.name >= p.name {
					continue // two different truth values, in one order
				}
				m := map[string]*apath{n: p}
				for a, b := range r {
					m[a] = b
				}
				next = append(next, m)
			}
		}
		res = next
		if len(res) > 600 {
			res = res[:600]
		}
	}
	return res
}

func metaName(m map[string]*apath) string {
	s := ""
	for _, k := range sortedKeys(m) {
		s += " " + k + "=" + m[k].name
	}
	return s
}
