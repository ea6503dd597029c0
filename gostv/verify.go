package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// OblResult is the outcome of one obligation, as reported by a worker.
type OblResult struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"` // proved, failed, vacuous
	Solver string  `json:"solver,omitempty"`
	Time   float64 `json:"time"`
	Detail string  `json:"detail,omitempty"`
	SMT    string  `json:"smt,omitempty"`
	Model  string  `json:"model,omitempty"`
}

// UnitResult is the outcome of one function or lemma.
type UnitResult struct {
	Unit      string             `json:"unit"`
	Obls      []OblResult        `json:"obls"`
	Used      []string           `json:"used"`
	Lemmas    []string           `json:"lemmas"`
	Externs   []string           `json:"externs"`
	Inlined   []string           `json:"inlined"`
	Loops     []string           `json:"loops"`
	Trusted   string             `json:"trusted,omitempty"`
	SolverSec map[string]float64 `json:"solver_sec"`
	Wins      map[string]int     `json:"wins"`
	Queries   int64              `json:"queries"`
	Wall      float64            `json:"wall"`
	Broken    bool               `json:"broken,omitempty"`
}

func (v *Verifier) verifyFunc(key string) (paths int) {
	sp := v.P.specs[key]
	f := v.P.byKey[key]
	if f == nil {
		v.addObl(&Obligation{Fn: key, Kind: "exists", Failed: "function not found in the source"})
		return
	}
	bvMode = sp.Opts["bv"]
	curFile = specBase(sp.File)
	defer func() { bvMode = false }()
	fr, st := v.setup(f, tenv{}, sp)
	v.top = fr
	for _, g := range sp.Ghosts {
		sc := v.specCtx(fr, st)
		s, _ := sc.specType(g.Type, &Expr{})
		fr.ghost[g.Name] = freshSym(g.Name, s)
	}
	fr.entry = st
	for _, r := range sp.Requires {
		sc := v.specCtx(fr, st)
		st.assume(sc.evalBool(r.E))
	}
	v.useLemmas(fr, st)
	v.addObl(&Obligation{Fn: key, Kind: "requires-satisfiable", Cover: true, Query: &Query{Hyps: st.hyps(), Goal: tFalse}})
	outs := v.runFrame2(fr, st)
	if !v.opts["split"] && len(outs) > 12 {
		outs = v.mergeOutcomes(fr, outs)
	}
	if len(outs) == 0 && len(sp.PanicsIf) == 0 {
		v.addObl(&Obligation{Fn: key, Kind: "returns", Failed: "no path returns"})
	}
	for _, o := range outs {
		var rsv []SV
		rs := f.Signature.Results()
		for j := 0; j < rs.Len(); j++ {
			rsv = append(rsv, SV{o.res[j], rs.At(j).Type()})
		}
		mk := func() *SpecCtx {
			sc := v.specCtx(fr, o.st)
			sc.result = rsv
			return sc
		}
		for _, s := range sp.Sets {
			mk().assign(s)
		}
		for _, u := range sp.Uses {
			u := u
			c := &cand{"use " + u.Text, true, func(s *State) *Term {
				sc := mk()
				sc.inLoop = true
				return v.lemmaInstance(sc, u.E)
			}}
			if t := evalCand(c, o.st); t != nil {
				o.st.assumeOnce(t)
			}
		}
		for _, a := range sp.Asserts {
			v.oblige(o.st, mk().evalBool(a.E), "assert", a.Label, "")
		}
		for _, p := range sp.PanicsIf {
			save := o.st.pc
			sc := v.specCtx(fr, fr.entry)
			v.oblige(o.st, Not(sc.evalBool(p.E)), "panics", p.Label, "")
			o.st.pc = save
		}
		for _, e := range sp.Ensures {
			var sub []*Expr
			if sp.Opts["whole"] {
				sub = []*Expr{e.E}
			} else {
				sub = conjuncts(e.E)
			}
			for _, ce := range sub {
				t := mk().evalBool(ce)
				save := o.st.pc
				v.oblige(o.st, t, "ensures", e.Label, "")
				o.st.pc = save
			}
			// later clauses may rely on earlier ones
			o.st.assume(mk().evalBool(e.E))
		}
		v.frameObls(fr, o, sp)
	}
	// reachability of a normal return
	if len(outs) > 0 {
		var hs []*Query
		for _, o := range outs {
			hs = append(hs, &Query{Hyps: o.st.hyps(), Goal: tFalse})
		}
		reach := false
		for _, q := range hs {
			if !quickValid(q, 0.5, false) {
				reach = true
				break
			}
		}
		if !reach && len(sp.PanicsIf) == 0 {
			v.addObl(&Obligation{Fn: key, Kind: "return-reachable", Failed: "no return is reachable under the precondition"})
		} else {
			v.addObl(&Obligation{Fn: key, Kind: "return-reachable", Query: &Query{Goal: tTrue}})
		}
	}
	return len(outs)
}

func (v *Verifier) mergeOutcomes(fr *Frame, outs []outcome) []outcome {
	rs := fr.fn.Signature.Results()
	var acc []outcome
	for _, o := range outs {
		done := false
		for i, a := range acc {
			pa := &PS{a.st.clone(), nil}
			pb := &PS{o.st.clone(), nil}
			anc := commonPC(a.st.pc, o.st.pc)
			ca, _ := suffix(a.st.pc, anc)
			cond := And(ca...)
			var res []Val
			ok := true
			for j := range a.res {
				m, good := mergeVals(pa.st, pb.st, cond, a.res[j], o.res[j], rs.At(j).Type())
				if !good {
					ok = false
					break
				}
				res = append(res, m)
			}
			if !ok {
				continue
			}
			m := v.tryMerge(pa, pb)
			if m == nil {
				continue
			}
			acc[i] = outcome{m.st, res}
			done = true
			break
		}
		if !done {
			acc = append(acc, o)
		}
	}
	return acc
}

// verifyLemma proves a lemma, by induction where asked.
func (v *Verifier) verifyLemma(name string) {
	l := v.P.ss.lemmas[name]
	if l == nil {
		v.addObl(&Obligation{Fn: "lemma " + name, Kind: "exists", Failed: "no such lemma"})
		return
	}
	bvMode = l.Opts["bv"]
	curFile = specBase(l.Ensures[0].E.File)
	defer func() { bvMode = false }()
	st := &State{heap: map[string]*Term{}, cells: map[int]*Cell{}, next: withRange(namedSym("next0", "Int"), big.NewInt(1), nil)}
	v.top = &Frame{names: map[string]Val{}, ghost: map[string]Val{}, cells: map[string]*LocV{}, entry: st}
	sc := &SpecCtx{v: v, st: st, entry: st, binds: map[string]SV{}}
	if l.Of != "" {
		sc.tyBind = map[string]types.Type{}
		for _, n := range l.TV { // for an arbitrary type
			sc.tyBind[n] = types.NewTypeParam(types.NewTypeName(0, v.P.pkg, n, nil), types.Universe.Lookup("any").Type().Underlying())
		}
	}
	// itself and later lemmas are not available
	defer func() {
		no := map[string]bool{}
		for i := v.P.lemmaOrder(name); i < len(v.P.ss.lorder); i++ {
			no[v.P.ss.lorder[i]] = true
		}
		for _, o := range v.obls {
			if o.Query != nil {
				o.Query.NoAx = no
			}
		}
	}()
	for _, g := range l.Vars {
		s, t := sc.specType(g.Type, &Expr{File: "lemma " + name})
		if strings.HasPrefix(g.Type, "bv") {
			panic(specErr{"bv lemma variables are not supported"})
		}
		x := freshSym(g.Name, s)
		if t != nil && !bvMode {
			if ii, ok := intInfoOf(t); ok {
				withRange(x, ii.min(), ii.max())
			}
		}
		sc.binds[g.Name] = SV{V: x, T: t}
	}
	for _, r := range l.Requires {
		st.assume(sc.evalBool(r.E))
	}
	v.addObl(&Obligation{Fn: "lemma " + name, Kind: "requires-satisfiable", Cover: true, Query: &Query{Hyps: st.hyps(), Goal: tFalse}})
	if l.Induct != "" {
		n := sc.binds[l.Induct].V.(*Term)
		b := map[string]SV{}
		for k, x := range sc.binds {
			b[k] = x
		}
		b[l.Induct] = SV{V: Sub(n, Int(1)), T: sc.binds[l.Induct].T}
		ih := *sc
		ih.binds = b
		var rs, es []*Term
		for _, r := range l.Requires {
			rs = append(rs, ih.evalBool(r.E))
		}
		for _, r := range l.Ensures {
			es = append(es, ih.evalBool(r.E))
		}
		st.assume(Implies(And(append(rs, Le(Int(1), n))...), And(es...)))
	}
	var check func(e *Expr, guard *Term, quant bool)
	check = func(e *Expr, guard *Term, quant bool) {
		switch {
		case e.Op == "call" && e.Name == name: // explicit induction hypothesis
			var iv *Term
			for i, g := range l.Vars {
				if g.Name == l.Induct && !quant {
					iv = sc.num(sc.eval(e.Args[i]), e).(*Term)
				}
			}
			if iv == nil {
				sc.fail(e, "recursive use without an induction variable")
			}
			v.oblige(st, Implies(guard, And(Le(Int(0), iv), Lt(iv, sc.binds[l.Induct].V.(*Term)))), "induction-decreases", "", "")
		case e.Op == "call":
			if lo := v.P.lemmaOrder(e.Name); lo >= v.P.lemmaOrder(name) {
				sc.fail(e, "lemma %s is not proved before %s", e.Name, name)
			}
		case e.Op == "bin" && e.Name == "==>":
			if quant {
				check(e.Args[1], guard, true)
			} else {
				check(e.Args[1], And(guard, sc.evalBool(e.Args[0])), false)
			}
		case e.Op == "forall":
			check(e.Args[0], guard, true)
		default:
			sc.fail(e, "lemma application expected")
		}
	}
	for _, u := range l.Uses {
		check(u.E, tTrue, false)
		st.assume(v.lemmaInstance(sc, u.E))
	}
	delete(v.lemmas, name)
	for _, e := range l.Ensures {
		for _, ce := range conjuncts(e.E) {
			v.oblige(st, sc.evalBool(ce), "ensures", e.Label, "")
		}
	}
}

func (p *Program) lemmaOrder(n string) int {
	for i, x := range p.ss.lorder {
		if x == n {
			return i
		}
	}
	return -1
}

func newVerifier(p *Program, name string) *Verifier {
	v := &Verifier{P: p, fnName: name, oblCount: map[string]int{}, used: map[string]bool{}, externs: map[string]bool{}, inlined: map[string]bool{}, opts: map[string]bool{}, lemmas: map[string]bool{}, tmo: 20}
	if sp := p.specs[name]; sp != nil {
		v.opts = sp.Opts
		if t := sp.OptVal["timeout"]; t != "" {
			fmt.Sscan(t, &v.tmo)
		}
	}
	return v
}

// runJob runs a unit with some contracts dropped and time limits scaled.
func runJob(p *Program, j Job) *UnitResult {
	dropped = map[string]bool{}
	for _, d := range j.Drop {
		dropped[d] = true
	}
	timeScale = 1
	if j.Scale > 0 {
		timeScale = j.Scale
	}
	if len(j.Drop) > 0 {
		effMemo = map[string]map[string]*effect{}
	}
	r := runUnit(p, j.Unit)
	if len(j.Drop) > 0 {
		effMemo = map[string]map[string]*effect{}
	}
	dropped = map[string]bool{}
	timeScale = 1
	return r
}

var dropped = map[string]bool{}
var timeScale = 1.0

// runUnit verifies one function or lemma and solves its obligations.
func runUnit(p *Program, unit string) *UnitResult {
	t0 := time.Now()
	res := &UnitResult{Unit: unit}
	s0 := map[string]float64{}
	w0 := map[string]int{}
	solverTimeMu.Lock()
	for k, x := range solverTime {
		s0[k] = x
	}
	for k, x := range solverWins {
		w0[k] = x
	}
	solverTimeMu.Unlock()
	q0 := queryCount
	var v *Verifier
	func() {
		defer func() {
			if r := recover(); r != nil {
				kind, msg := "internal", fmt.Sprint(r)
				switch x := r.(type) {
				case Unsupported:
					kind, msg = "in-subset", x.msg
				case specErr:
					kind, msg = "contract-applies", x.msg
				default:
					if os.Getenv("GOSTV_DEBUG") != "" {
						debug.PrintStack()
					}
				}
				v.dry = 0
				storeLogs = nil
				bvMode = false
				v.addObl(&Obligation{Fn: v.fnName, Kind: kind, Failed: msg})
			}
		}()
		axUsed.Clear()
		if strings.HasPrefix(unit, "lemma ") {
			v = newVerifier(p, unit)
			v.verifyLemma(strings.TrimPrefix(unit, "lemma "))
			return
		}
		v = newVerifier(p, unit)
		if sp := p.specs[unit]; sp != nil && sp.Trusted != "" {
			res.Trusted = sp.Trusted
			return
		}
		v.verifyFunc(unit)
	}()
	vcTime := time.Since(t0).Seconds()
	out := make([]OblResult, len(v.obls))
	order := portfolio
	if v.opts["cvc5"] {
		order = []string{"cvc5", "z3-new", "z3-new-em", "z3", "z3-new-nl"}
	}
	parallel(len(v.obls), func(i int) {
		o := v.obls[i]
		r := OblResult{Name: o.Name, Kind: o.Kind, Pos: o.Pos}
		switch {
		case o.Failed != "":
			r.Status, r.Detail = "failed", o.Failed
		case o.Cover:
			if quickValid(o.Query, 1, false) {
				r.Status, r.Detail = "vacuous", "the precondition is contradictory"
			} else {
				r.Status = "proved"
				r.Solver = "not refuted"
			}
		default:
			s := solve(o.Query, v.tmo*timeScale, order)
			r.Solver, r.Time = s.Solver, s.Time
			if s.Status == "unsat" {
				r.Status = "proved"
			} else {
				r.Status = "failed"
				r.Detail = s.Status + " " + s.Reason
				r.SMT = s.SMT
				r.Model = s.Model
			}
		}
		out[i] = r
	})
	res.Obls = out
	res.Used = sortedKeys(v.used)
	axUsed.Range(func(k, _ any) bool {
		v.lemmas[k.(string)] = true
		return true
	})
	res.Lemmas = sortedKeys(v.lemmas)
	res.Externs = sortedKeys(v.externs)
	res.Inlined = sortedKeys(v.inlined)
	res.Loops = v.loopInfo
	res.SolverSec = map[string]float64{}
	res.Wins = map[string]int{}
	solverTimeMu.Lock()
	for k, x := range solverTime {
		if d := x - s0[k]; d > 0 {
			res.SolverSec[k] = d
		}
	}
	for k, x := range solverWins {
		if d := x - w0[k]; d > 0 {
			res.Wins[k] = d
		}
	}
	solverTimeMu.Unlock()
	res.Queries = queryCount - q0
	res.Wall = time.Since(t0).Seconds()
	_ = vcTime
	return res
}
