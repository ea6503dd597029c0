package main

// shiftHyp rewrites assumed universal facts about array cells A[off+j] into facts about A[k] with k = off+j, which
// E-matching can instantiate whatever the shape of the index. The two are equivalent.
func shiftHyp(h *Term) *Term {
	switch h.Op {
	case "and":
		as := make([]*Term, len(h.Args))
		for i, a := range h.Args {
			as[i] = shiftHyp(a)
		}
		return And(as...)
	case "=>":
		return Implies(h.Args[0], shiftHyp(h.Args[1]))
	case "forall":
		if len(h.Vars) != 1 || h.Vars[0].Sort != "Int" || len(h.Pats) > 0 {
			return h
		}
		v := h.Vars[0]
		if b := h.Args[0]; b.Op == "and" || b.Op == "=>" && b.Args[1].Op == "and" {
			var parts []*Term
			if b.Op == "and" {
				parts = b.Args
			} else {
				for _, x := range b.Args[1].Args {
					parts = append(parts, Implies(b.Args[0], x))
				}
			}
			as := make([]*Term, len(parts))
			ch := false
			for i, x := range parts {
				f := Forall([]*Term{v}, x)
				as[i] = shiftHyp(f)
				ch = ch || as[i] != f
			}
			if !ch {
				return h
			}
			return And(as...)
		}
		type inst struct{ a, rest *Term }
		var ins []inst
		seen := map[*Term]bool{}
		dup := map[*Term]bool{}
		shifted := false
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.bound || seen[t] || t.Op == "forall" {
				return
			}
			seen[t] = true
			for _, a := range t.Args {
				walk(a)
			}
			if t.Op != "select" || t.Args[1].Sort != "Int" {
				return
			}
			m := map[*Term]bool{}
			collectBVars(t.Args[0], m)
			if m[v] || dup[t.Args[0]] {
				return
			}
			l := linOf(t.Args[1])
			if c := l.m[v]; c == nil || !c.IsInt64() || c.Int64() != 1 {
				return
			}
			rest := Sub(t.Args[1], v)
			m = map[*Term]bool{}
			collectBVars(rest, m)
			if m[v] {
				return
			}
			dup[t.Args[0]] = true
			shifted = shifted || !(rest.isInt() && rest.N.Sign() == 0)
			ins = append(ins, inst{t.Args[0], rest})
		}
		walk(h.Args[0])
		if !shifted || len(ins) > 4 {
			return h
		}
		// only the newest array triggers: chaining backwards cannot run in circles
		in := ins[0]
		for _, x := range ins {
			if p, q := heapOf(x.a).id, heapOf(in.a).id; p > q || p == q && x.a.id > in.a.id {
				in = x
			}
		}
		k := freshBVar("k", "Int")
		body := substTerm(h.Args[0], map[*Term]*Term{v: Sub(k, in.rest)})
		return Forall([]*Term{k}, body, []*Term{Select(in.a, k)})
	}
	return h
}

// shiftQuery gives the query with shifted hypotheses, nil if that changes nothing.
func shiftQuery(q *Query) *Query {
	n := *q
	n.Hyps = make([]*Term, len(q.Hyps))
	ch := false
	for i, h := range q.Hyps {
		n.Hyps[i] = shiftHyp(h)
		ch = ch || n.Hyps[i] != h
	}
	if !ch {
		return nil
	}
	return &n
}

// heapOf gives the term of the heap an array was read from.
func heapOf(t *Term) *Term {
	for t.Op == "select" || t.Op == "store" {
		t = t.Args[0]
	}
	return t
}
