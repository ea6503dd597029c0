package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Axiom is a background fact, included in a query when all its triggers occur in it.
type Axiom struct {
	Name  string
	Trig  []string
	T     *Term
	Kind  string // "assumed", "lemma", "definition"
	Off   bool
	AnyOf bool   // one trigger suffices
	File  string // a lemma stated in this file is used automatically there only (and everywhere from the shared files 0*)
}

// curFile is the specification file of the function or lemma being verified.
var curFile string

func (a *Axiom) off() bool {
	return a.Off || a.Kind == "lemma" && a.File != "" && a.File != curFile && !strings.HasPrefix(a.File, "0")
}

var axioms []*Axiom

// axUsed names the lemmas that took part in queries as axioms.
var axUsed sync.Map

type Query struct {
	Hyps []*Term
	Goal *Term
	Get  []*Term // terms whose model values are wanted
	NoAx map[string]bool
	Lean bool // leave out the axioms and hypotheses the goal cannot need
}

type Result struct {
	Status  string // unsat, sat, unknown, timeout
	Solver  string
	Time    float64
	Model   string
	Reason  string
	SMT     string
	Values  map[string]string
	Elapsed float64
}

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	used  map[string]int
	defs  map[*Term]string
	decl  []string
	sorts map[string]bool
}

func newPrinter() *printer {
	return &printer{names: map[*Term]string{}, used: map[string]int{}, defs: map[*Term]string{}, sorts: map[string]bool{}}
}
func (p *printer) symName(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	base := t.Name
	if i := strings.IndexAny(base, "!?"); i >= 0 {
		base = base[:i] + "!"
	}
	n := base
	if strings.HasSuffix(base, "!") {
		p.used[base]++
		n = fmt.Sprintf("%s%d", base, p.used[base])
	}
	p.names[t] = n
	return n
}
func intStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func (p *printer) str(t *Term) string {
	var sb strings.Builder
	p.pr(&sb, t)
	return sb.String()
}
func (p *printer) pr(sb *strings.Builder, t *Term) {
	if d, ok := p.defs[t]; ok {
		sb.WriteString(d)
		return
	}
	switch t.Op {
	case "sym", "bvar":
		sb.WriteString(p.symName(t))
	case "int":
		sb.WriteString(intStr(t.N))
	case "bv":
		fmt.Fprintf(sb, "(_ bv%s %d)", t.N.String(), bvWidth(t.Sort))
	case "true", "false":
		sb.WriteString(t.Op)
	case "lit":
		sb.WriteString(t.Name)
	case "forall":
		sb.WriteString("(forall (")
		for _, v := range t.Vars {
			fmt.Fprintf(sb, "(%s %s)", p.symName(v), v.Sort)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		p.pr(sb, t.Args[0])
		if len(t.Pats) > 0 {
			for _, ps := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.pr(sb, x)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.Sort)
		p.pr(sb, t.Args[0])
		sb.WriteString(")")
	default:
		if len(t.Args) == 0 {
			sb.WriteString(t.Op)
			return
		}
		sb.WriteByte('(')
		if t.Name != "" { // indexed operator such as (_ extract 7 0)
			sb.WriteString(t.Name)
		} else {
			sb.WriteString(t.Op)
		}
		for _, a := range t.Args {
			sb.WriteByte(' ')
			p.pr(sb, a)
		}
		sb.WriteByte(')')
	}
}

var builtinSorts = map[string]bool{"Int": true, "Bool": true, "Real": true, "RoundingMode": true, "String": true, "Float32": true, "Float64": true}

func sortAtoms(s string, f func(string)) {
	if builtinSorts[s] || isBV(s) || strings.HasPrefix(s, "(_ FloatingPoint") || strings.HasPrefix(s, "(Seq") {
		return
	}
	if strings.HasPrefix(s, "(Array") {
		a, b := splitArr(s)
		sortAtoms(a, f)
		sortAtoms(b, f)
		return
	}
	f(s)
}

// smtText renders a query.
func smtText(q *Query, wantModel bool) string {
	hyps := append([]*Term{}, q.Hyps...)
	var needed map[string]bool
	if q.Lean { // only what the goal can need: fewer hypotheses, so only a proof counts
		needed = leanOps(q)
		k := hyps[:0]
		for _, h := range hyps {
			keep := true
			for o := range termOps(h) {
				if axTriggers()[o] && !needed[o] {
					keep = false
				}
			}
			if keep {
				k = append(k, h)
			}
		}
		hyps = k
	}
	roots := append(append([]*Term{}, hyps...), q.Goal)
	// relevant axioms to a fixpoint
	usedOps := map[string]bool{}
	seen := map[*Term]bool{}
	cnt := map[*Term]int{}
	var rangeAtoms, finSets []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if t.lo != nil || t.hi != nil {
			if !t.bound {
				rangeAtoms = append(rangeAtoms, t)
			}
		}
		if _, ok := ufDecls[t.Op]; ok {
			usedOps[t.Op] = true
			if !t.bound && strings.HasPrefix(t.Op, "card_") {
				finSets = append(finSets, UF("fin"+t.Op[4:], "Bool", t.Args[0]))
			}
		}
		if t.Op == "sym" {
			usedOps[t.Name] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, v := range t.Vars {
			seen[v] = true
		}
		for _, ps := range t.Pats {
			for _, x := range ps {
				walk(x)
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	incl := map[*Axiom]bool{}
	var axs []*Term
	for ch := true; ch; {
		ch = false
		for _, a := range axioms {
			if incl[a] || a.off() || q.NoAx[a.Name] {
				continue
			}
			if q.Lean && a.Kind != "assumed" {
				skip := false
				for _, tr := range a.Trig {
					skip = skip || axTriggers()[tr] && !needed[tr]
				}
				if skip {
					continue
				}
			}
			ok := true
			if a.AnyOf {
				ok = false
				for _, tr := range a.Trig {
					if usedOps[tr] {
						ok = true
					}
				}
			} else {
				for _, tr := range a.Trig {
					if !usedOps[tr] {
						ok = false
					}
				}
			}
			if ok {
				incl[a] = true
				if a.Kind == "lemma" {
					axUsed.Store(a.Name, true)
				}
				axs = append(axs, a.T)
				walk(a.T)
				ch = true
			}
		}
	}
	// range facts
	var rf []*Term
	for _, t := range rangeAtoms {
		if t.lo != nil {
			rf = append(rf, App("<=", "Bool", IntB(t.lo), t))
		}
		if t.hi != nil {
			rf = append(rf, App("<=", "Bool", t, IntB(t.hi)))
		}
	}
	rf = append(rf, finSets...)
	p := newPrinter()
	var sb strings.Builder
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	// sorts and symbols
	var body strings.Builder
	sorts := map[string]bool{}
	var sortList []string
	addSort := func(s string) {
		sortAtoms(s, func(x string) {
			if !sorts[x] {
				sorts[x] = true
				sortList = append(sortList, x)
			}
		})
	}
	declared := map[string]bool{}
	var decl func(t *Term)
	dseen := map[*Term]bool{}
	var defOrder []*Term
	decl = func(t *Term) {
		if dseen[t] {
			return
		}
		dseen[t] = true
		addSort(t.Sort)
		for _, v := range t.Vars {
			addSort(v.Sort)
		}
		if t.Op == "sym" {
			n := p.symName(t)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&body, "(declare-fun %s () %s)\n", n, t.Sort)
			}
			return
		}
		for _, a := range t.Args {
			decl(a)
		}
		for _, ps := range t.Pats {
			for _, x := range ps {
				decl(x)
			}
		}
		if d, ok := ufDecls[t.Op]; ok && !declared[t.Op] {
			declared[t.Op] = true
			for _, a := range d.args {
				addSort(a)
			}
			addSort(d.ret)
			fmt.Fprintf(&body, "(declare-fun %s (%s) %s)\n", t.Op, strings.Join(d.args, " "), d.ret)
		}
		if !t.bound && len(t.Args) > 0 && cnt[t] > 1 && t.Op != "forall" {
			defOrder = append(defOrder, t)
			fmt.Fprintf(&body, "(define-fun %%def!%d () %s %s)\n", len(defOrder), t.Sort, p.str(t))
			p.defs[t] = fmt.Sprintf("%%def!%d", len(defOrder))
		}
	}
	emit := func(ts []*Term) {
		for _, t := range ts {
			decl(t)
			body.WriteString("(assert " + p.str(t) + ")\n")
		}
	}
	emit(hyps)
	emit(rf)
	ng := Not(q.Goal)
	decl(ng)
	body.WriteString("; goal\n(assert " + p.str(ng) + ")\n")
	emit(axs)
	for _, g := range q.Get {
		decl(g)
	}
	for _, s := range sortList {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	if wantModel {
		if len(q.Get) > 0 {
			sb.WriteString("(get-value (")
			for i, g := range q.Get {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.str(g))
			}
			sb.WriteString("))\n")
		}
	}
	return sb.String()
}

type solverCfg struct {
	name string
	cmd  []string
}

func solverCmd(name string, tmo float64) []string {
	ms := int(tmo * 1000)
	switch name {
	case "z3-new":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}
	case "z3-new-em":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "auto_config=false"}
	case "z3":
		return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}
	case "z3-new-sh": // patterns stay as they are written
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "auto_config=false", "smt.solve_eqs=false", "smt.array.extensional=false", "smt.arith.solver=2"}
	case "z3-new-s6":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "auto_config=false", "smt.solve_eqs=false", "smt.array.extensional=false", "smt.qi.eager_threshold=5"}
	case "z3-new-nl":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.arith.solver=2"}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	case "cvc5-fs":
		return []string{"cvc5", "--lang=smt2", "--enum-inst", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}
	panic(name)
}

var procSem = make(chan struct{}, func() int {
	n := runtime.NumCPU()
	if n < 2 {
		n = 2
	}
	return n
}())

var (
	solverTimeMu sync.Mutex
	solverTime   = map[string]float64{}
	solverWins   = map[string]int{}
	queryCount   int64
)

func runSolver(ctx context.Context, name, text string, tmo float64) (string, string) {
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled", ""
	}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return "cancelled", ""
	}
	c := solverCmd(name, tmo)
	cctx, cancel := context.WithTimeout(ctx, time.Duration((tmo+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(cctx, c[0], c[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	el := time.Since(t0).Seconds()
	solverTimeMu.Lock()
	solverTime[name] += el
	solverTimeMu.Unlock()
	atomic.AddInt64(&queryCount, 1)
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			return l, o
		case "timeout":
			return "timeout", o
		}
		if strings.HasPrefix(l, "(error") {
			return "error", o
		}
	}
	if ctx.Err() != nil {
		return "cancelled", o
	}
	if strings.Contains(o, "rror") {
		return "error", o
	}
	return "timeout", o
}

var qcache sync.Map

// quick checks validity with a short budget (used for invariant inference and path pruning).
func quickValid(q *Query, tmo float64, hint bool) bool {
	if q.Goal.Op == "true" {
		return true
	}
	for _, h := range q.Hyps {
		if h == q.Goal || h.Op == "false" {
			return true
		}
	}
	tmo *= timeScale
	text := smtTextLocked(q, false)
	key := sha256.Sum256([]byte(text))
	eff := tmo // a failure only answers for no more effort than was spent
	if hint {
		eff += 0.001
	}
	if v, ok := qcache.Load(key); ok {
		if f := v.(float64); f < 0 || f >= eff {
			return f < 0
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st, o := runSolver(ctx, "z3-new", text, tmo)
	if st == "error" && os.Getenv("GOSTV_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(o, 3))
		os.WriteFile("/tmp/gostv_err.smt2", []byte(text), 0644)
	}
	ok := st == "unsat"
	if !ok && st != "sat" {
		// E-matching only
		shText := text
		if sh := shiftQueryLocked(q); sh != nil {
			shText = smtTextLocked(sh, false)
		}
		st5, _ := runSolver(ctx, "z3-new-s6", shText, tmo)
		ok = st5 == "unsat"
		if !ok && hint {
			st5, _ = runSolver(ctx, "z3-new-sh", shText, tmo)
			ok = st5 == "unsat"
		}
		st2 := ""
		if !ok {
			st2, _ = runSolver(ctx, "z3-new-em", text, tmo)
			ok = st2 == "unsat"
		}
		if !ok && st2 != "sat" {
			lq := *q
			lq.Lean = true
			if lean := smtTextLocked(&lq, false); len(lean) < len(text) {
				st4, _ := runSolver(ctx, "z3-new", lean, tmo)
				ok = st4 == "unsat"
			}
		}
		if !ok && st2 != "sat" && hint {
			st3, _ := runSolver(ctx, "z3", text, tmo)
			ok = st3 == "unsat"
		}
	}
	if ok {
		eff = -1
	}
	qcache.Store(key, eff)
	return ok
}

var smtMu sync.Mutex

func smtTextLocked(q *Query, m bool) string {
	smtMu.Lock()
	defer smtMu.Unlock()
	return smtText(q, m)
}

func shiftQueryLocked(q *Query) *Query {
	smtMu.Lock()
	defer smtMu.Unlock()
	return shiftQuery(q)
}

// termOps lists the declared functions in a term.
func termOps(t *Term) map[string]bool {
	opsMu.Lock()
	defer opsMu.Unlock()
	if m, ok := opsMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := ufDecls[t.Op]; ok {
			m[t.Op] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, ps := range t.Pats {
			for _, x := range ps {
				walk(x)
			}
		}
	}
	walk(t)
	opsMemo[t] = m
	return m
}

var (
	opsMu   sync.Mutex
	opsMemo = map[*Term]map[string]bool{}
	trigN   int
	trigSet map[string]bool
)

// axTriggers lists the functions that the specification's axioms and lemmas are about.
func axTriggers() map[string]bool {
	if trigSet == nil || trigN != len(axioms) {
		trigN, trigSet = len(axioms), map[string]bool{}
		for _, a := range axioms {
			if a.Kind != "assumed" {
				for _, t := range a.Trig {
					trigSet[t] = true
				}
			}
		}
	}
	return trigSet
}

// leanOps closes the goal's functions under the axioms that relate them to others.
func leanOps(q *Query) map[string]bool {
	need := map[string]bool{}
	for o := range termOps(q.Goal) {
		need[o] = true
	}
	for ch := true; ch; {
		ch = false
		for _, a := range axioms {
			if a.Kind == "assumed" || a.off() {
				continue
			}
			hit := false
			for _, t := range a.Trig {
				hit = hit || need[t]
			}
			if !hit {
				continue
			}
			for o := range termOps(a.T) {
				if !need[o] {
					need[o], ch = true, true
				}
			}
		}
	}
	return need
}

var portfolio = []string{"z3-new", "z3-new-em", "cvc5", "z3", "z3-new-nl"}

// solve decides validity of hyps => goal with a portfolio.
func solve(q *Query, tmo float64, order []string) *Result {
	if order == nil {
		order = portfolio
	}
	t0 := time.Now()
	if q.Goal.Op == "true" {
		return &Result{Status: "unsat", Solver: "simplifier"}
	}
	for _, h := range q.Hyps {
		if h == q.Goal || h.Op == "false" {
			return &Result{Status: "unsat", Solver: "simplifier"}
		}
	}
	text := smtTextLocked(q, true)
	r := &Result{Status: "timeout", SMT: text}
	finish := func(st, name, out string) {
		r.Status, r.Solver, r.Model = st, name, out
		r.Time = time.Since(t0).Seconds()
		if st == "unsat" {
			solverTimeMu.Lock()
			solverWins[solverName(name)]++
			solverTimeMu.Unlock()
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st, out := runSolver(ctx, order[0], text, 1.5)
	if st == "unsat" || st == "sat" {
		finish(st, order[0], out)
		return r
	}
	if st == "error" {
		r.Reason += order[0] + ": " + firstLines(out, 2) + "; "
	}
	type res struct{ st, name, out string }
	ch := make(chan res, len(order)+4)
	for _, s := range order {
		go func(s string) {
			st, out := runSolver(ctx, s, text, tmo)
			ch <- res{st, s, out}
		}(s)
	}
	n := len(order)
	lq := *q
	lq.Lean = true
	if lean := smtTextLocked(&lq, true); len(lean) < len(text) {
		for _, s := range []string{"z3-new", "z3"} {
			n++
			go func(s string) {
				st, out := runSolver(ctx, s, lean, tmo)
				if st == "sat" {
					st = "unknown"
				}
				ch <- res{st, s, out}
			}(s)
		}
	}
	{
		st := text
		if sh := shiftQueryLocked(q); sh != nil {
			st = smtTextLocked(sh, true)
		}
		for _, s := range []string{"z3-new-sh", "z3-new-s6"} {
			n++
			go func(s string) {
				st, out := runSolver(ctx, s, st, tmo)
				if st == "sat" {
					st = "unknown"
				}
				ch <- res{st, s, out}
			}(s)
		}
	}
	var satRes *res
	for ; n > 0; n-- {
		x := <-ch
		if x.st == "unsat" {
			finish(x.st, x.name, x.out)
			return r
		}
		if x.st == "sat" {
			y := x
			satRes = &y
			break
		}
		if x.st != "cancelled" {
			r.Reason += x.name + ":" + x.st + " "
			if x.st == "error" {
				r.Reason += firstLines(x.out, 2) + " "
			}
			if x.st == "unknown" {
				r.Status = "unknown"
			}
		}
	}
	if os.Getenv("GOSTV_DEBUG") != "" {
		if sh := shiftQueryLocked(q); sh != nil {
			os.WriteFile("/tmp/gostv_fail_sh.smt2", []byte(smtTextLocked(sh, true)), 0644)
		}
	}
	if satRes != nil {
		finish("sat", satRes.name, satRes.out)
		return r
	}
	r.Time = time.Since(t0).Seconds()
	return r
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " / ")
}

// parallel runs f over 0..n-1 on a worker pool.
func parallel(n int, f func(i int)) {
	w := runtime.NumCPU() + 4
	if n < w {
		w = n
	}
	var wg sync.WaitGroup
	var next int64 = -1
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// solverName drops the suffix that names a configuration.
func solverName(s string) string {
	for _, x := range []string{"-em", "-nl", "-sh", "-s6"} {
		s = strings.TrimSuffix(s, x)
	}
	return s
}
