package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// storeLog, when active, records the heap references written to.
type storeLogT map[string]map[*Term]bool

var storeLogs []storeLogT

func logStore(name string, idx *Term) {
	for _, l := range storeLogs {
		if l[name] == nil {
			l[name] = map[*Term]bool{}
		}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.Op == "ite" {
				rec(t.Args[1])
				rec(t.Args[2])
				return
			}
			l[name][t] = true
		}
		rec(idx)
	}
}

// hstore writes one object's entry of a heap array.
func (s *State) hstore(name string, h, idx, val *Term) {
	logStore(name, idx)
	s.heap[name] = Store(h, idx, val)
}

type modset struct {
	cells map[int]map[int]bool
	heaps map[string]bool
	next  bool
}

func (m *modset) String() string {
	return fmt.Sprintf("cells %v heaps %v next %v", m.cells, sortedKeys(m.heaps), m.next)
}

type cand struct {
	name string
	hint bool
	f    func(st *State) *Term
}

func evalCand(c *cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specErr:
				if os.Getenv("GOSTV_INV") != "" {
					fmt.Fprintln(os.Stderr, "cand", c.name, ":", x.msg)
				}
				t = nil
			case Unsupported:
				if os.Getenv("GOSTV_INV") != "" {
					fmt.Fprintln(os.Stderr, "cand", c.name, ":", x.msg)
				}
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.f(st)
}

// cellLeaves yields the scalar components of a cell's value with their sorts.
func cellLeaves(c *Cell) ([]Val, []leaf) {
	if c.typ == nil {
		return nil, nil
	}
	if g, ok := ghostSorts[typeKey(c.typ)]; ok {
		return []Val{c.val}, []leaf{{"", g, nil, "set"}}
	}
	if tt, ok := c.typ.(*types.Tuple); ok {
		_ = tt
		return nil, nil
	}
	return rawLeaves(c.val, c.typ), leavesOf(c.typ)
}

func (v *Verifier) havoc(ps *PS, m *modset) *PS {
	n := ps.clone()
	st := n.st
	if m.next {
		nx := withRange(freshSym("next", "Int"), big.NewInt(1), nil)
		st.assume(Le(st.next, nx))
		st.next = nx
	}
	for _, name := range sortedKeys(m.heaps) {
		st.heap[name] = freshSym("hv_"+cleanName(name), heapSorts[name])
	}
	var ids []int
	for id := range m.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		c := *st.cells[id]
		raw, ls := cellLeaves(&c)
		out := make([]Val, len(raw))
		copy(out, raw)
		all := true
		terms := make([]*Term, len(raw))
		for i := range raw {
			if m.cells[id][i] {
				t := rangedSym(c.name+ls[i].path, ls[i])
				out[i] = t
				terms[i] = t
			} else if t, ok := raw[i].(*Term); ok {
				terms[i] = t
			} else {
				all = false
			}
		}
		if ls[0].kind == "set" {
			c.val = out[0]
			st.cells[id] = &c
			continue
		}
		if all {
			st.wfFacts(ls, terms)
		} else {
			for i := range raw {
				if m.cells[id][i] && ls[i].kind == "" {
					st.wfFacts(ls[i:i+1], terms[i:i+1])
				}
			}
		}
		c.val = buildRaw(c.typ, out)
		st.cells[id] = &c
	}
	return n
}

// diff adds to m what changed between head and back; reports promotions of pre-existing cells.
func (m *modset) diff(head, back *State, pre map[int]bool) (changed bool, promote []int) {
	for id := range pre {
		c := head.cells[id]
		d := back.cells[id]
		if d == nil || c == d {
			continue
		}
		if c.fwd == nil && d.fwd != nil {
			promote = append(promote, id)
			continue
		}
		if c.fwd != nil {
			continue
		}
		a, _ := cellLeaves(c)
		b, _ := cellLeaves(d)
		for i := range a {
			if !sameVal(a[i], b[i]) {
				if m.cells[id] == nil {
					m.cells[id] = map[int]bool{}
				}
				if !m.cells[id][i] {
					m.cells[id][i] = true
					changed = true
				}
			}
		}
	}
	for name, h := range back.heap {
		if head.getHeap(name, h.Sort) != h && !m.heaps[name] {
			m.heaps[name] = true
			changed = true
		}
	}
	if head.next != back.next && !m.next {
		m.next = true
		changed = true
	}
	sort.Ints(promote)
	return
}

func symNum(t *Term) int {
	i := strings.LastIndexByte(t.Name, '!')
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(t.Name[i+1:])
	if err != nil {
		return 0
	}
	return n
}

// invariantTerm: built only from symbols that existed at mark.
func invariantTerm(t *Term, mark int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := true
	if t.Op == "sym" {
		r = symNum(t) <= mark
	} else if t.Op == "bvar" {
		r = false
	}
	for _, a := range t.Args {
		if !r {
			break
		}
		r = invariantTerm(a, mark, memo)
	}
	memo[t] = r
	return r
}

func snapFrame(fr *Frame) *Frame {
	n := *fr
	n.cells = map[string]*LocV{}
	for k, x := range fr.cells {
		n.cells[k] = x
	}
	return &n
}

// dryRegion runs the body without recording obligations or returns.
func (v *Verifier) dryRegion(fr *Frame, l *Loop, head *PS) []edge {
	v.dry++
	nr := len(fr.rets)
	cs := snapFrame(fr).cells
	back, _ := v.region(fr, []edge{{nil, l.head, head.clone()}}, l, true)
	fr.rets = fr.rets[:nr]
	fr.cells = cs
	v.dry--
	return back
}

// headCond evaluates the condition under which the loop continues at its head.
func (v *Verifier) headCond(fr *Frame, l *Loop, ps *PS) (c *Term) {
	q := ps.clone()
	v.dry++
	ns := v.nosafety
	v.nosafety = true
	cs := snapFrame(fr).cells
	defer func() {
		v.dry--
		v.nosafety = ns
		fr.cells = cs
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
			c = nil
		}
	}()
	for _, in := range l.head.Instrs {
		switch x := in.(type) {
		case *ssa.If:
			t := term(v.get(fr, q, x.Cond))
			a, b := l.body[l.head.Succs[0]], l.body[l.head.Succs[1]]
			if a && !b {
				return t
			}
			if b && !a {
				return Not(t)
			}
			return nil
		case *ssa.Call:
			outs := v.call(fr, q, &x.Call, x, "")
			if len(outs) != 1 {
				return nil
			}
			q.st = outs[0].st
			switch len(outs[0].res) {
			case 0:
			case 1:
				q.env[x] = outs[0].res[0]
			default:
				q.env[x] = TupleV(outs[0].res)
			}
		case *ssa.Phi, *ssa.DebugRef, *ssa.Jump:
		default:
			if !v.instr(fr, q, in) {
				return nil
			}
		}
	}
	return nil
}

// relaxations of a loop condition: what holds one step after it held.
func relax(c *Term) []*Term {
	if c == nil {
		return nil
	}
	return append(relax1(c), relax1(substTerm(c, wrapOf))...)
}

func relax1(c *Term) []*Term {
	switch c.Op {
	case "<=":
		return []*Term{Le(c.Args[0], Add(c.Args[1], Int(1)))}
	case "not":
		d := c.Args[0]
		if d.Op == "<=" {
			return []*Term{Le(d.Args[1], d.Args[0])}
		}
		if d.Op == "=" && d.Args[0].Sort == "Int" {
			return []*Term{Le(d.Args[0], d.Args[1]), Le(d.Args[1], d.Args[0])}
		}
	case "and":
		var out []*Term
		for _, a := range c.Args {
			out = append(out, relax1(a)...)
		}
		return out
	}
	return nil
}

func measuresOf(c *Term) []*Term {
	if c == nil {
		return nil
	}
	switch c.Op {
	case "<=":
		return []*Term{Add(Sub(c.Args[1], c.Args[0]), Int(1))}
	case "not":
		d := c.Args[0]
		if d.Op == "<=" {
			return []*Term{Sub(d.Args[0], d.Args[1])}
		}
		if d.Op == "=" && d.Args[0].Sort == "Int" {
			return []*Term{Sub(d.Args[0], d.Args[1]), Sub(d.Args[1], d.Args[0])}
		}
	case "and":
		var out []*Term
		for _, a := range c.Args {
			out = append(out, measuresOf(a)...)
		}
		return out
	}
	return nil
}

func conjuncts(e *Expr) []*Expr {
	if e.Op == "bin" && e.Name == "&&" {
		return append(conjuncts(e.Args[0]), conjuncts(e.Args[1])...)
	}
	return []*Expr{e}
}

func (v *Verifier) loopName(fr *Frame, l *Loop) string {
	return fmt.Sprintf("%s.loop%d", fnKey(fr.fn), l.ord+1)
}

func (v *Verifier) handleLoop(fr *Frame, l *Loop, ps *PS) []edge {
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			unsup("phi at loop head")
		}
	}
	// constant unrolling on request
	if v.top.spec != nil && v.top.spec.OptVal["unroll"] != "" {
		n, _ := strconv.Atoi(v.top.spec.OptVal["unroll"])
		return v.unroll(fr, l, ps, n)
	}
	sf := snapFrame(fr)
	mark := symCount
	log := storeLogT{}
	var m *modset
	// 1. what the loop modifies
restart:
	m = &modset{cells: map[int]map[int]bool{}, heaps: map[string]bool{}}
	pre := map[int]bool{}
	for id := range ps.st.cells {
		pre[id] = true
	}
	mark = symCount
	noinv := v.noinv
	v.noinv = true
	for iter := 0; ; iter++ {
		if iter > 60 {
			unsup("modification set does not stabilise")
		}
		head := v.havoc(ps, m)
		hs := head.st.clone()
		for k := range log {
			delete(log, k)
		}
		storeLogs = append(storeLogs, log)
		back := v.dryRegion(fr, l, head)
		storeLogs = storeLogs[:len(storeLogs)-1]
		changed := false
		var prom []int
		for _, b := range back {
			c, p := m.diff(hs, b.ps.st, pre)
			changed = changed || c
			prom = append(prom, p...)
		}
		if len(prom) > 0 {
			v.noinv = noinv
			for _, id := range prom {
				ps.st.refOf(&LocV{kind: "cell", cell: id, typ: ps.st.cells[id].typ})
			}
			goto restart
		}
		if !changed {
			break
		}
	}
	v.noinv = noinv
	// values of modified cells must be expressible as terms at the head
	for id := range m.cells {
		c := ps.st.cells[id]
		raw, ls := cellLeaves(c)
		out := append([]Val{}, raw...)
		for i := range raw {
			if m.cells[id][i] && ls[i].kind != "set" {
				out[i] = ps.st.scalar(raw[i], ls[i].typ)
			}
		}
		if ls[0].kind != "set" {
			nc := *ps.st.cells[id]
			nc.val = buildRaw(nc.typ, out)
			ps.st.cells[id] = &nc
		}
	}
	if len(ps.st.cells) != len(pre) {
		goto restart
	}
	entry := ps.st.clone()
	if v.noinv {
		head := v.havoc(ps, m)
		_, exits := v.region(fr, []edge{{nil, l.head, head}}, l, true)
		return exits
	}
	// 2. invariants by elimination
	cands := v.candidates(fr, sf, l, ps, m, log, mark)
	cands = v.filterCands(cands, []*State{entry})
	for round := 0; ; round++ {
		head := v.havoc(ps, m)
		for _, c := range cands {
			if t := evalCand(c, head.st); t != nil {
				head.st.assume(t)
			}
		}
		v.useLemmas(sf, head.st)
		back := v.dryRegion(fr, l, head)
		var sts []*State
		for _, b := range back {
			v.useLemmas(sf, b.ps.st)
			sts = append(sts, b.ps.st)
		}
		n := len(cands)
		cands = v.filterCands(cands, sts)
		if os.Getenv("GOSTV_INV") != "" {
			fmt.Fprintf(os.Stderr, "%s round %d: %d -> %d candidates, %d back edges\n", v.loopName(fr, l), round, n, len(cands), len(back))
		}
		if len(cands) == n {
			break
		}
	}
	if os.Getenv("GOSTV_INV") != "" && v.dry == 0 {
		for _, c := range cands {
			fmt.Fprintln(os.Stderr, "   keep", c.name)
		}
	}
	// 3. final pass
	lname := v.loopName(fr, l)
	for _, c := range cands {
		if t := evalCand(c, ps.st); t != nil {
			v.oblige(ps.st, t, "inv-init", lname+"/"+c.name, v.pos(l.head.Instrs[0].Pos()))
		}
	}
	head := v.havoc(ps, m)
	for _, c := range cands {
		if t := evalCand(c, head.st); t != nil {
			head.st.assume(t)
		}
	}
	v.useLemmas(sf, head.st)
	headSt := head.st.clone()
	meas := v.measures(fr, sf, l, ps, head, headSt, m)
	back, exits := v.region(fr, []edge{{nil, l.head, head}}, l, true)
	if v.dry == 0 {
		for _, b := range back {
			v.useLemmas(sf, b.ps.st)
			for _, c := range cands {
				if t := evalCand(c, b.ps.st); t != nil {
					save := b.ps.st.pc
					v.oblige(b.ps.st, t, "inv-keep", lname+"/"+c.name, v.pos(l.head.Instrs[0].Pos()))
					b.ps.st.pc = save
				}
			}
		}
		v.termination(fr, sf, l, lname, headSt, back, meas, cands)
		names := []string{}
		for _, c := range cands {
			names = append(names, c.name)
		}
		v.loopInfo = append(v.loopInfo, fmt.Sprintf("%s: %d invariants (%s)", lname, len(cands), strings.Join(names, "; ")))
	}
	return exits
}

func (v *Verifier) filterCands(cands []*cand, sts []*State) []*cand {
	type job struct {
		c *cand
		q *Query
		i int
	}
	var jobs []job
	drop := make([]bool, len(cands))
	for i, c := range cands {
		for _, s := range sts {
			t := evalCand(c, s)
			if t == nil {
				drop[i] = true
				break
			}
			if t.Op == "true" {
				continue
			}
			jobs = append(jobs, job{c, &Query{Hyps: s.hyps(), Goal: t}, i})
		}
	}
	var mu sync.Mutex
	parallel(len(jobs), func(k int) {
		mu.Lock()
		d := drop[jobs[k].i]
		mu.Unlock()
		if d {
			return
		}
		tmo := 0.4
		if jobs[k].c.hint {
			tmo = 1.5
			if x := v.top.spec; x != nil && x.OptVal["hint"] != "" {
				fmt.Sscan(x.OptVal["hint"], &tmo)
			}
		}
		if !quickValid(jobs[k].q, tmo, jobs[k].c.hint) {
			mu.Lock()
			drop[jobs[k].i] = true
			mu.Unlock()
			if os.Getenv("GOSTV_INV") != "" {
				fmt.Fprintln(os.Stderr, "   drop", jobs[k].c.name)
				if os.Getenv("GOSTV_INV") == jobs[k].c.name {
					os.WriteFile("/tmp/gostv_drop.smt2", []byte(smtTextLocked(jobs[k].q, true)), 0644)
					if sh := shiftQueryLocked(jobs[k].q); sh != nil {
						os.WriteFile("/tmp/gostv_drop_sh.smt2", []byte(smtTextLocked(sh, true)), 0644)
					}
				}
			}
		}
	})
	var out []*cand
	for i, c := range cands {
		if !drop[i] {
			out = append(out, c)
		}
	}
	return out
}

// loopTerms are integer quantities whose evolution is tracked automatically.
type loopTerm struct {
	name string
	f    func(st *State) *Term
}

func (v *Verifier) candidates(fr, sf *Frame, l *Loop, ps *PS, m *modset, log storeLogT, mark int) []*cand {
	var out []*cand
	seen := map[string]bool{}
	add := func(name string, hint bool, f func(st *State) *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &cand{name, hint, f})
	}
	entry := ps.st.clone()
	// a. hints from the contract
	mhead := v.havoc(ps, m).st
	mmemo := map[byte][]*apath{}
	mseen := map[*Term]bool{}
	var specs []*FuncSpec
	if fr.spec != nil {
		specs = append(specs, fr.spec)
	}
	if v.top.spec != nil && v.top.spec != fr.spec {
		specs = append(specs, v.top.spec)
	}
	for _, sp := range specs {
		for _, cl := range sp.Invs {
			for k, e := range conjuncts(cl.E) {
				e := e
				nm := cl.Label
				if nm == "" {
					nm = strings.TrimSpace(cl.Text)
				}
				if k > 0 {
					nm = fmt.Sprintf("%s (%d)", nm, k+1)
				}
				ef := sf
				if sp != fr.spec {
					ef = v.mixFrame(sf)
				}
				for _, inst := range v.metaInstances(e, ps, mhead, ef, mmemo) {
					inst := inst
					nm := nm + metaName(inst)
					f := func(st *State) *Term {
						sc := v.specCtx(ef, st)
						sc.inLoop = true
						sc.pre = entry
						for k, p := range inst {
							x, ok := sc.evalPath(p)
							if !ok {
								return nil
							}
							sc.binds[k] = x
						}
						return sc.evalBool(e)
					}
					if len(inst) > 0 {
						t := evalCand(&cand{nm, true, f}, mhead)
						if t == nil || t.Op == "true" || mseen[t] {
							continue
						}
						mseen[t] = true
					}
					add(nm, true, f)
				}
			}
		}
	}
	// b. loop condition, relaxed
	hc := v.headCond(fr, l, &PS{mhead, ps.env})
	for i := range relax(hc) {
		i := i
		add(fmt.Sprintf("cond%d", i+1), false, func(st *State) *Term {
			r := relax(v.headCond(fr, l, &PS{st, ps.env}))
			if i >= len(r) {
				return nil
			}
			return r[i]
		})
	}
	memo := map[*Term]bool{}
	// tracked quantities
	var lts []loopTerm
	var ids []int
	for id := range m.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	nexts := []*Term{ps.st.next}
	for _, x := range []*Term{fr.entry.next, v.top.entry.next} {
		dup := false
		for _, y := range nexts {
			if x == y {
				dup = true
			}
		}
		if !dup {
			nexts = append(nexts, x)
		}
	}
	refCands := func(name string, f func(st *State) *Term) {
		add(name+" != nil", false, func(st *State) *Term { return Not(Eq(f(st), Int(0))) })
		v0 := f(entry)
		for k, nx := range nexts {
			nx := nx
			add(fmt.Sprintf("%s same or new%d", name, k), false, func(st *State) *Term { return Or(Eq(f(st), v0), Le(nx, f(st))) })
			add(fmt.Sprintf("%s nil or new%d", name, k), false, func(st *State) *Term { return Or(Eq(f(st), Int(0)), Le(nx, f(st))) })
		}
	}
	for _, id := range ids {
		id := id
		c := ps.st.cells[id]
		_, ls := cellLeaves(c)
		for i, lf := range ls {
			i := i
			if !m.cells[id][i] {
				continue
			}
			nm := c.name + lf.path
			if nm == "" {
				nm = fmt.Sprintf("cell%d", len(lts))
			}
			f := func(st *State) *Term {
				raw, _ := cellLeaves(st.cells[id])
				t, ok := raw[i].(*Term)
				if !ok {
					t = st.scalar(raw[i], lf.typ)
				}
				return t
			}
			switch {
			case lf.kind == "set":
				mt, mp := v.iterOf(ps, id)
				if mt != nil {
					b := freshBVar("k", scalarSort(mt.Key()))
					add("visited in map", false, func(st *State) *Term {
						vis := f(st)
						d := st.dom(mt, mp)
						return Forall([]*Term{b}, Implies(Select(vis, b), Select(d, b)), []*Term{Select(vis, b)})
					})
					add("visited nil map", false, func(st *State) *Term {
						return Implies(Eq(mp, Int(0)), Eq(f(st), ConstArr(f(st).Sort, tFalse)))
					})
				}
			case lf.sort == "Int" && (lf.kind == "arr"):
				refCands(nm, f)
			case lf.sort == "Int" && lf.kind == "" && lf.typ != nil:
				if _, ok := intInfoOf(lf.typ); ok {
					lts = append(lts, loopTerm{nm, f})
				} else {
					refCands(nm, f)
				}
			case lf.sort == "Int" && lf.kind != "cap":
				lts = append(lts, loopTerm{nm, f})
			case lf.sort == "Int" && lf.kind == "cap":
			}
		}
	}
	// modified heap: references written that do not change during the loop
	for _, name := range sortedKeys(m.heaps) {
		name := name
		if strings.HasPrefix(name, "G|") {
			continue
		}
		srt := heapSorts[name]
		_, es := splitArr(srt)
		var keys []*Term
		for t := range log[name] {
			if invariantTerm(t, mark, memo) {
				keys = append(keys, t)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		h0 := ps.st.getHeap(name, srt)
		b := freshBVar("r", "Int")
		for k, nx := range nexts {
			nx := nx
			add(fmt.Sprintf("frame%d %s", k, name), false, func(st *State) *Term {
				h := st.getHeap(name, srt)
				cs := []*Term{Lt(Int(0), b), Lt(b, nx)}
				for _, kk := range keys {
					cs = append(cs, Not(Eq(b, kk)))
				}
				return Forall([]*Term{b}, Implies(And(cs...), Eq(App("select", es, h, b), App("select", es, h0, b))), []*Term{App("select", es, h, b)})
			})
		}
		if v.top != nil && v.top.spec != nil && v.top.entry != nil {
			// the frame condition of the function itself
			entry := v.top.entry
			mods := v.modTerms(v.top, entry, v.top.spec)
			he := entry.getHeap(name, srt)
			add("frameM "+name, false, func(st *State) *Term {
				h := st.getHeap(name, srt)
				cs := []*Term{Lt(Int(0), b), Lt(b, entry.next)}
				for _, m := range mods {
					if !m.match(name) {
						continue
					}
					if m.ref != nil {
						cs = append(cs, Not(Eq(b, m.ref)))
					} else {
						cs = append(cs, Not(m.cond(b)))
					}
				}
				return Forall([]*Term{b}, Implies(And(cs...), Eq(App("select", es, h, b), App("select", es, he, b))), []*Term{App("select", es, h, b)})
			})
		}
		if es == "Int" {
			for i, kk := range keys {
				kk := kk
				if strings.HasSuffix(name, "#arr") {
					refCands(fmt.Sprintf("%s[%d]", name, i), func(st *State) *Term { return Select(st.getHeap(name, srt), kk) })
					continue
				}
				lts = append(lts, loopTerm{fmt.Sprintf("%s[%d]", name, i), func(st *State) *Term { return Select(st.getHeap(name, srt), kk) }})
			}
		}
		if strings.HasPrefix(name, "A|") {
			// elements outside the written region of an invariant backing array
			for i, kk := range keys {
				kk := kk
				for j, lt := range append([]loopTerm{}, lts...) {
					if strings.Contains(lt.name, "|") {
						continue
					}
					lt := lt
					p0 := lt.f(entry)
					_ = p0
					bb := freshBVar("i", "Int")
					_, ees := splitArr(es)
					add(fmt.Sprintf("tail %s[%d] by %s#%d", name, i, lt.name, j), false, func(st *State) *Term {
						a := Select(st.getHeap(name, srt), kk)
						a0 := Select(h0, kk)
						return Forall([]*Term{bb}, Implies(Le(lt.f(st), bb), Eq(App("select", ees, a, bb), App("select", ees, a0, bb))), []*Term{App("select", ees, a, bb)})
					})
				}
			}
		}
	}
	// c. monotonicity and fixed differences
	for i, p := range lts {
		if v.opts["noauto"] {
			break
		}
		p := p
		p0 := p.f(entry)
		if p0 == nil || p0.Sort != "Int" {
			continue
		}
		add(p.name+" >= initial", false, func(st *State) *Term { return Le(p0, p.f(st)) })
		add(p.name+" <= initial", false, func(st *State) *Term { return Le(p.f(st), p0) })
		if len(lts) <= 8 {
			for j := i + 1; j < len(lts); j++ {
				q := lts[j]
				q0 := q.f(entry)
				if q0 == nil || q0.Sort != "Int" {
					continue
				}
				add(p.name+" - "+q.name, false, func(st *State) *Term { return Eq(Sub(p.f(st), p0), Sub(q.f(st), q0)) })
				add(p.name+" + "+q.name, false, func(st *State) *Term { return Eq(Sub(p.f(st), p0), Sub(q0, q.f(st))) })
			}
		}
	}
	return out
}

// mixFrame lets the top function's contract refer to an inlined callee's locals.
func (v *Verifier) mixFrame(sf *Frame) *Frame {
	n := *sf
	n.spec = v.top.spec
	n.names = map[string]Val{}
	for k, x := range v.top.names {
		n.names[k] = x
	}
	n.entry = v.top.entry
	n.ghost = v.top.ghost
	n.fn = v.top.fn
	n.env = v.top.env
	n.cells = map[string]*LocV{}
	for k, x := range v.top.cells {
		n.cells[k] = x
	}
	for k, x := range sf.cells {
		n.cells[k] = x
	}
	return &n
}

func (v *Verifier) iterOf(ps *PS, cell int) (*types.Map, *Term) {
	for _, x := range ps.env {
		if it, ok := x.(*MapIterV); ok && it.cell == cell && it.mt != nil {
			return it.mt, it.m
		}
	}
	return nil, nil
}

type measure struct {
	name string
	f    func(st *State) *Term
	at   *Term // value at the head
}

func (v *Verifier) measures(fr, sf *Frame, l *Loop, entry, head *PS, hs *State, m *modset) []measure {
	var out []measure
	if v.dry > 0 {
		return nil
	}
	var specs []*FuncSpec
	if fr.spec != nil {
		specs = append(specs, fr.spec)
	}
	if v.top.spec != nil && v.top.spec != fr.spec {
		specs = append(specs, v.top.spec)
	}
	try := func(name string, f func(st *State) *Term) {
		c := &cand{name, true, f}
		t := evalCand(c, hs)
		if t == nil || t.Sort != "Int" {
			return
		}
		out = append(out, measure{name, func(st *State) *Term { return evalCand(c, st) }, t})
	}
	for _, sp := range specs {
		for _, cl := range sp.Decs {
			cl := cl
			ef := sf
			if sp != fr.spec {
				ef = v.mixFrame(sf)
			}
			for _, inst := range v.metaInstances(cl.E, entry, head.st, ef, map[byte][]*apath{}) {
				inst := inst
				try(strings.TrimSpace(cl.Text)+metaName(inst), func(st *State) *Term {
					sc := v.specCtx(ef, st)
					sc.inLoop = true
					for k, p := range inst {
						x, ok := sc.evalPath(p)
						if !ok {
							return nil
						}
						sc.binds[k] = x
					}
					n := sc.num(sc.eval(cl.E), cl.E)
					t, _ := n.(*Term)
					return t
				})
			}
		}
	}
	n := len(measuresOf(v.headCond(fr, l, head)))
	for i := 0; i < n; i++ {
		i := i
		try("loop condition", func(st *State) *Term {
			ms := measuresOf(v.headCond(fr, l, &PS{st, head.env}))
			if i >= len(ms) {
				return nil
			}
			return ms[i]
		})
	}
	var ids []int
	for id := range m.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		_, ls := cellLeaves(head.st.cells[id])
		for i, lf := range ls {
			if lf.sort != "Int" || lf.kind == "cap" || lf.kind == "arr" || !m.cells[id][i] {
				continue
			}
			if lf.kind == "" {
				if _, ok := intInfoOf(lf.typ); !ok {
					continue
				}
			}
			i := i
			f := func(st *State) *Term {
				raw, _ := cellLeaves(st.cells[id])
				return term(raw[i])
			}
			try(head.st.cells[id].name+lf.path, f)
		}
	}
	return out
}

func (v *Verifier) termination(fr, sf *Frame, l *Loop, lname string, hs *State, back []edge, meas []measure, cands []*cand) {
	if len(back) == 0 {
		return
	}
	for _, o := range []map[string]bool{v.opts} {
		if o["noterm"] {
			return
		}
	}
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if !n.IsString {
				v.externs["range over a map terminates (finite domain)"] = true
			}
			v.addObl(&Obligation{Fn: v.fnName, Kind: "terminates", Name: lname, Query: &Query{Goal: tTrue}})
			return
		}
	}
	goals := func(ms measure) []*Query {
		var qs []*Query
		for _, b := range back {
			t := ms.f(b.ps.st)
			if t == nil {
				return nil
			}
			qs = append(qs, &Query{Hyps: b.ps.st.hyps(), Goal: And(Lt(t, ms.at), Le(Int(0), ms.at))})
			if os.Getenv("GOSTV_INV") != "" {
				os.WriteFile("/tmp/gostv_term.smt2", []byte(smtTextLocked(qs[len(qs)-1], false)), 0644)
			}
		}
		return qs
	}
	var pick []*Query
	for _, tmo := range []float64{0.3, 4} {
		for _, ms := range meas {
			qs := goals(ms)
			if qs == nil {
				continue
			}
			if pick == nil {
				pick = qs
			}
			ok := true
			for _, q := range qs {
				if !quickValid(q, tmo, tmo > 1) {
					ok = false
					break
				}
			}
			if os.Getenv("GOSTV_INV") != "" {
				fmt.Fprintln(os.Stderr, "   measure", ms.name, tmo, ok)
			}
			if ok {
				for _, q := range qs {
					v.addObl(&Obligation{Fn: v.fnName, Kind: "terminates", Name: lname, Query: q})
				}
				v.loopInfo = append(v.loopInfo, lname+" terminates by "+ms.name)
				return
			}
		}
	}
	if pick == nil {
		v.addObl(&Obligation{Fn: v.fnName, Kind: "terminates", Name: lname, Failed: "no termination measure", Query: &Query{Hyps: back[0].ps.st.hyps(), Goal: tFalse}})
		return
	}
	for _, q := range pick {
		v.addObl(&Obligation{Fn: v.fnName, Kind: "terminates", Name: lname, Query: q})
	}
}

// unroll executes a loop a fixed number of times and requires that it has ended by then.
func (v *Verifier) unroll(fr *Frame, l *Loop, ps *PS, n int) []edge {
	cur := []edge{{nil, l.head, ps}}
	var exits []edge
	for i := 0; i <= n; i++ {
		var pss []*PS
		for _, e := range cur {
			pss = append(pss, e.ps)
		}
		pss = v.mergeAll(pss, 1)
		cur = nil
		for _, p := range pss {
			cur = append(cur, edge{nil, l.head, p})
		}
		if len(cur) == 0 {
			return exits
		}
		b, ex := v.region(fr, cur, l, true)
		exits = append(exits, ex...)
		cur = nil
		for _, e := range b {
			if quickValid(&Query{Hyps: e.ps.st.hyps(), Goal: tFalse}, 1, false) {
				continue
			}
			cur = append(cur, e)
		}
		if len(cur) == 0 {
			return exits
		}
	}
	for _, e := range cur {
		v.oblige(e.ps.st, tFalse, "unroll", v.loopName(fr, l), v.pos(l.head.Instrs[0].Pos()))
	}
	return exits
}
