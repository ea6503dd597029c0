package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Job is one request to a worker process.
type Job struct {
	Unit  string   `json:"unit"`
	Drop  []string `json:"drop,omitempty"` // contracts not to be used: these callees are inlined
	Scale float64  `json:"scale,omitempty"`
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker() *worker {
	exe, _ := os.Executable()
	c := exec.Command(exe, "worker")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = os.Stderr
	if c.Start() != nil {
		return nil
	}
	return &worker{c, in, bufio.NewReaderSize(out, 1<<20)}
}

func (w *worker) run(j Job, limit time.Duration) *UnitResult {
	b, _ := json.Marshal(j)
	fmt.Fprintf(w.in, "%s\n", b)
	type ans struct {
		r   *UnitResult
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		l, err := w.out.ReadBytes('\n')
		if err != nil {
			ch <- ans{nil, err}
			return
		}
		r := &UnitResult{}
		if err := json.Unmarshal(l, r); err != nil {
			ch <- ans{nil, err}
			return
		}
		ch <- ans{r, nil}
	}()
	select {
	case a := <-ch:
		if a.err == nil {
			return a.r
		}
		return &UnitResult{Unit: j.Unit, Broken: true, Obls: []OblResult{{Name: j.Unit + "/verifier", Kind: "verifier", Status: "failed", Detail: "the verifier process died: " + a.err.Error()}}}
	case <-time.After(limit):
		w.cmd.Process.Kill()
		return &UnitResult{Unit: j.Unit, Broken: true, Obls: []OblResult{{Name: j.Unit + "/verifier", Kind: "verifier", Status: "failed", Detail: "verification condition generation did not finish in " + limit.String()}}}
	}
}

// runJobs verifies units on a pool of processes; grow returns follow-up jobs for a result.
func runJobs(jobs []Job, nw int, limit time.Duration, grow func(*UnitResult) []Job) []*UnitResult {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := append([]Job(nil), jobs...)
	busy := 0
	var res []*UnitResult
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					break
				}
				j := queue[0]
				queue = queue[1:]
				busy++
				mu.Unlock()
				if w == nil {
					w = startWorker()
				}
				r := w.run(j, limit)
				if r.Broken {
					w.cmd.Process.Kill()
					w.cmd.Wait()
					w = nil
				}
				mu.Lock()
				res = append(res, r)
				busy--
				if grow != nil {
					queue = append(queue, grow(r)...)
				}
				cond.Broadcast()
				mu.Unlock()
			}
			if w != nil {
				w.in.Close()
				w.cmd.Wait()
			}
		}()
	}
	wg.Wait()
	return res
}

func (r *UnitResult) failed() []OblResult {
	var out []OblResult
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

// internalHelper says whether a function is an unexported helper: its contract is an auxiliary of the proofs
// of its callers, not part of what a property states.
func internalHelper(k string) bool {
	i := strings.LastIndexByte(k, '.')
	n := k[i+1:]
	return n[0] == '_' || n[0] >= 'a' && n[0] <= 'z'
}

type finding struct{ kind, prop, commit, text string }

func loadFindings() []finding {
	b, err := os.ReadFile(verifDir() + "/KNOWN_FINDINGS.txt")
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if m := regexp.MustCompile(`^known: property=(\S+) (.*)$`).FindStringSubmatch(l); m != nil {
			out = append(out, finding{"known", m[1], "", m[2]})
		}
	}
	return out
}

func envInt(n string, d int) int {
	if x, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return x
	}
	return d
}

func checkProperty(id, tier string) int {
	t0 := time.Now()
	if t := os.Getenv("VERIF_TIER"); (t == "quick" || t == "thorough") && len(os.Args) <= 3 {
		tier = t
	}
	seed := envInt("VERIF_SEED", 1)
	p, err := loadProgram()
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	isProp := func(ps []string) bool {
		for _, x := range ps {
			if x == id {
				return true
			}
		}
		return false
	}
	var jobs []Job
	seen := map[string]bool{}
	own := map[string]bool{}
	tagged := 0
	add := func(u string) []Job {
		if seen[u] {
			return nil
		}
		seen[u] = true
		return []Job{{Unit: u}}
	}
	for _, k := range p.ss.order {
		sp := p.specs[k]
		if !isProp(sp.Props) || sp.Inline {
			continue
		}
		if p.byKey[k] == nil && internalHelper(k) {
			continue // a helper that no longer exists is no longer needed
		}
		own[k] = true
		tagged++
		jobs = append(jobs, add(k)...)
	}
	for _, k := range p.ss.lorder {
		if isProp(p.ss.lemmas[k].Props) {
			own["lemma "+k] = true
			jobs = append(jobs, add("lemma "+k)...)
		}
	}
	if len(jobs) == 0 {
		fmt.Println("no contracts for", id)
		return 2
	}
	grow := func(r *UnitResult) []Job {
		var js []Job
		for _, u := range r.Used {
			js = append(js, add(u)...)
		}
		for _, u := range r.Lemmas {
			js = append(js, add("lemma "+u)...)
		}
		return js
	}
	// long units first
	sort.SliceStable(jobs, func(i, j int) bool { return p.weight(jobs[i].Unit) > p.weight(jobs[j].Unit) })
	nw := runtime.NumCPU()
	limit := 240 * time.Second
	fmt.Printf("%s: %d units under contract, tier %s\n", id, len(jobs), tier)
	res := runJobs(jobs, nw, limit, grow)
	byUnit := map[string]*UnitResult{}
	for _, r := range res {
		byUnit[r.Unit] = r
	}
	queries := int64(0)
	solverSec := map[string]float64{}
	account := func(rs []*UnitResult) {
		for _, r := range rs {
			queries += r.Queries
			for k, x := range r.SolverSec {
				solverSec[k] += x
			}
		}
	}
	account(res)
	bad := func() []string {
		var b []string
		for u, r := range byUnit {
			if len(r.failed()) > 0 {
				b = append(b, u)
			}
		}
		sort.Strings(b)
		return b
	}
	replaced := map[string]string{}
	// second chance, with more time and less competition
	deadline := t0.Add(520 * time.Second)
	if b := bad(); len(b) > 0 {
		var js []Job
		for _, u := range b {
			js = append(js, Job{Unit: u, Scale: 3})
		}
		if len(js) > 12 {
			js = js[:12]
		}
		rs := runJobs(js, 3, 150*time.Second, grow)
		account(rs)
		for _, r := range rs {
			if old := byUnit[r.Unit]; old == nil || len(r.failed()) <= len(old.failed()) {
				byUnit[r.Unit] = r
			}
		}
	}
	// a helper that does not meet its auxiliary contract is inlined into its callers instead
	for round := 0; round < 3 && time.Now().Before(deadline); round++ {
		var drop []string
		for _, u := range bad() {
			if internalHelper(u) && !strings.HasPrefix(u, "lemma ") && replaced[u] == "" {
				drop = append(drop, u)
			}
		}
		for u := range replaced {
			drop = append(drop, u)
		}
		sort.Strings(drop)
		if len(drop) == 0 || len(drop) == len(replaced) {
			break
		}
		var js []Job
		for _, u := range sortedKeys(byUnit) {
			if contains(drop, u) {
				continue
			}
			for _, d := range drop {
				if contains(byUnit[u].Used, d) {
					js = append(js, Job{Unit: u, Drop: drop, Scale: 2})
					break
				}
			}
		}
		rs := runJobs(js, 4, 150*time.Second, grow)
		account(rs)
		good := true
		for _, r := range rs {
			if len(r.failed()) > 0 {
				good = false
			}
		}
		if !good {
			break
		}
		for _, r := range rs {
			byUnit[r.Unit] = r
		}
		for _, d := range drop {
			replaced[d] = "inlined into its callers"
		}
	}
	for d := range replaced {
		delete(byUnit, d)
	}

	// report
	type fo struct {
		unit string
		o    OblResult
	}
	var fails []fo
	total, proved, vacuity := 0, 0, 0
	backends := map[string]int{}
	kinds := map[string]int{}
	externs := map[string]bool{}
	inlined := map[string]bool{}
	trusted := map[string]string{}
	var funcs, lemmas []string
	for _, u := range sortedKeys(byUnit) {
		r := byUnit[u]
		if r.Trusted != "" {
			trusted[u] = r.Trusted
			continue
		}
		if strings.HasPrefix(u, "lemma ") {
			lemmas = append(lemmas, strings.TrimPrefix(u, "lemma "))
		} else {
			funcs = append(funcs, u)
		}
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, e := range r.Inlined {
			inlined[e] = true
		}
		for _, o := range r.Obls {
			if (o.Kind == "requires-satisfiable" || o.Kind == "return-reachable") && o.Status == "proved" {
				vacuity++
				continue
			}
			total++
			kinds[o.Kind]++
			if o.Status == "proved" {
				proved++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				backends[solverName(s)]++
			} else {
				fails = append(fails, fo{u, o})
			}
		}
	}
	exit := 0
	violations := 0
	var harness []string
	harnessCases := 0
	witness := ""
	needHarness := len(fails) > 0 || tier == "thorough"
	bounded := hasHarness(id, "bounded")
	if bounded || needHarness {
		mode := "bounded"
		if needHarness {
			mode = "search"
		}
		budget := 60
		if tier == "thorough" {
			budget = 240
		}
		h := runHarness(id, mode, seed, budget)
		harness = h.lines
		harnessCases = h.cases
		witness = h.witness
		if h.err != "" && witness == "" {
			harness = append(harness, "harness error: "+h.err)
			if bounded && len(fails) == 0 {
				fmt.Println(h.err)
				return 2
			}
		}
	}
	for _, f := range fails {
		fmt.Printf("  FAILED %s %s (%s): %s %s\n", f.o.Name, f.o.Pos, f.o.Kind, f.o.Status, f.o.Detail)
	}
	if len(fails) > 0 || witness != "" {
		exit = 1
		violations = len(fails)
		if violations == 0 {
			violations = 1
		}
		dir := verifDir() + "/evidence/replay"
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, id+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\n", id)
		for _, f := range fails {
			fmt.Fprintf(&b, "\nfailed obligation: %s\n  function: %s\n  kind: %s\n  at: %s\n  status: %s\n  %s\n", f.o.Name, f.unit, f.o.Kind, f.o.Pos, f.o.Status, f.o.Detail)
		}
		if witness != "" {
			fmt.Fprintf(&b, "\nfailing input, replayed against the real code:\n%s\n\nre-run: %s\n", witness, harnessCmdText(id, seed))
		}
		for _, f := range fails {
			if f.o.Model != "" && f.o.Solver != "" {
				fmt.Fprintf(&b, "\n---- solver output for %s (%s)\n%s\n", f.o.Name, f.o.Solver, clip(f.o.Model, 6000))
			}
			if f.o.SMT != "" {
				fmt.Fprintf(&b, "\n---- query for %s\n%s\n", f.o.Name, clip(f.o.SMT, 40000))
			}
		}
		os.WriteFile(path, b.Bytes(), 0644)
		if witness != "" {
			fmt.Println("  witness:", firstLines(witness, 2))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
		}
	}
	for _, f := range loadFindings() {
		if f.prop == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
		}
	}
	level := manifestLevel(id)
	tb := []string{
		"gostv (/verif/gostv): the verification condition generator over go/ssa (golang.org/x/tools v0.52.0) of the functions in /repo",
		"SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2",
		"go/parser, go/types and go/ssa translate the source faithfully; the Go compiler implements the same semantics",
	}
	for _, e := range sortedKeys(externs) {
		tb = append(tb, "model of external function: "+e)
	}
	for _, t := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+t+" ("+trusted[t]+")")
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"obligations": total, "discharged": proved,
			"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", id, tier),
			"trusted_base":             tb,
			"functions_under_contract": funcs, "functions_stated_by_property": tagged,
			"lemmas": lemmas, "inlined_functions": sortedKeys(inlined), "helpers_inlined_instead_of_contract": sortedKeys(replaced),
			"discharged_by": backends, "obligation_kinds": kinds,
			"solver_seconds": roundMap(solverSec), "solver_queries": queries, "vacuity_checks_passed": vacuity,
			"harness": harness, "harness_cases": harnessCases,
			"bounded_stand_ins": boundedList(id),
		},
		"assumptions": assumptions(id, p),
		"violations":  violations,
		"wall_s":      time.Since(t0).Seconds(),
	}
	if level != "proof" {
		c := ev["coverage"].(map[string]any)
		c["explanation"] = "see obligations, discharged and bounded_stand_ins"
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(verifDir()+"/evidence", 0755)
	os.WriteFile(verifDir()+"/evidence/"+id+".json", append(b, '\n'), 0644)
	fmt.Printf("%s: %d/%d obligations discharged, %d functions, %d lemmas, %.1fs\n", id, proved, total, len(funcs), len(lemmas), time.Since(t0).Seconds())
	return exit
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func roundMap(m map[string]float64) map[string]float64 {
	o := map[string]float64{}
	for k, x := range m {
		o[k] = float64(int(x*100)) / 100
	}
	return o
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(cut)"
	}
	return s
}

// weight guesses how long a unit takes.
func (p *Program) weight(u string) int {
	f := p.byKey[u]
	if f == nil {
		return 0
	}
	n := len(f.Blocks)
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				n += 20
			}
		}
	}
	return n
}

func manifestLevel(id string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, _ := os.ReadFile(verifDir() + "/MANIFEST.json")
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == id {
			return c.Level
		}
	}
	return "proof"
}

func assumptions(id string, p *Program) []string {
	out := []string{
		"lengths, capacities and allocation counts stay below 2^48 (no machine holds more); integer arithmetic itself is modelled exactly, with wrap-around",
		"methods are called on non-nil receivers; no data races; closures and trait methods passed in are deterministic and have no side effect on the data structures of the library",
		"values of different type parameters do not share mutable memory",
		"stack and heap exhaustion are not modelled",
	}
	for _, a := range p.ss.axs {
		if a.Kind == "assumed" {
			for _, pr := range a.Props {
				if pr == id {
					out = append(out, "assumed law: "+a.Name)
				}
			}
		}
	}
	return out
}

// ---- concrete search against the real code ----
type harnessResult struct {
	witness, err string
	lines        []string
	cases        int
}

func harnessFiles() []string {
	fs, _ := filepath.Glob(verifDir() + "/replay/*_test.go")
	return fs
}

var reHarness = regexp.MustCompile(`(?m)^\s*(?:var _ = )?(search|bounded)\("(\w+)", "([^"]*)"`)

func hasHarness(id, mode string) bool { return len(harnessNames(id, mode)) > 0 }

func harnessNames(id, mode string) []string {
	var out []string
	for _, f := range harnessFiles() {
		b, _ := os.ReadFile(f)
		for _, m := range reHarness.FindAllStringSubmatch(string(b), -1) {
			if m[2] == id && (mode == "" || m[1] == mode) {
				out = append(out, m[3])
			}
		}
	}
	return out
}
func boundedList(id string) []string {
	l := harnessNames(id, "bounded")
	if l == nil {
		l = []string{}
	}
	return l
}

func harnessCmdText(id string, seed int) string {
	return fmt.Sprintf("VERIF_SEED=%d /verif/check.sh replay %s", seed, id)
}

func runHarness(id, mode string, seed, budget int) harnessResult {
	var h harnessResult
	if len(harnessNames(id, "")) == 0 {
		h.lines = []string{"no concrete search for this property"}
		return h
	}
	tmp, err := os.MkdirTemp("", "gostv-replay")
	if err != nil {
		h.err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	// a harness file of another property that no longer compiles is left out
	dropped := map[string]bool{}
	var out bytes.Buffer
	var rerr error
	for round := 0; round < 4; round++ {
		out.Reset()
		rerr = runHarnessOnce(id, mode, seed, budget, tmp, dropped, &out)
		if rerr == nil || !strings.Contains(out.String(), "[build failed]") {
			break
		}
		n := len(dropped)
		for _, m := range regexp.MustCompile(`(?m)(\w+_test\.go):\d+`).FindAllStringSubmatch(out.String(), -1) {
			f := strings.TrimPrefix(m[1], "zz_verif_")
			own := strings.HasPrefix(f, "aa_")
			src, _ := os.ReadFile(verifDir() + "/replay/" + f)
			for _, h := range reHarness.FindAllStringSubmatch(string(src), -1) {
				own = own || h[2] == id
			}
			if !own {
				dropped[f] = true
			}
		}
		if len(dropped) == n {
			break
		}
	}
	var w []string
	for _, l := range strings.Split(out.String(), "\n") {
		switch {
		case strings.Contains(l, "WITNESS "):
			w = append(w, l[strings.Index(l, "WITNESS ")+8:])
		case strings.HasPrefix(l, "CASES "):
			n, _ := strconv.Atoi(strings.Fields(l)[1])
			h.cases += n
			h.lines = append(h.lines, l)
		}
	}
	if len(w) > 5 {
		w = w[:5]
	}
	h.witness = strings.Join(w, "\n")
	if rerr != nil && h.witness == "" {
		h.err = rerr.Error() + "\n" + clip(out.String(), 3000)
		if strings.Contains(out.String(), "fatal error: stack overflow") || strings.Contains(out.String(), "goroutine stack exceeds") || strings.Contains(out.String(), "out of memory") {
			h.witness = "the real code crashed the process: " + clip(out.String(), 500)
		}
	}
	return h
}

func runHarnessOnce(id, mode string, seed, budget int, tmp string, dropped map[string]bool, out *bytes.Buffer) error {
	repl := map[string]string{}
	for _, f := range harnessFiles() {
		if !dropped[filepath.Base(f)] {
			repl[repoDir()+"/zz_verif_"+filepath.Base(f)] = f
		}
	}
	// the repository's own tests are not needed
	own, _ := filepath.Glob(repoDir() + "/*_test.go")
	for _, f := range own {
		repl[f] = ""
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(tmp+"/overlay.json", ov, 0644)
	os.MkdirAll(tmp+"/scratch", 0755)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+90)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "test", "-v", "-vet=off", "-overlay", tmp+"/overlay.json", "-run", "^TestVerifReplay$", "-count=1", "-timeout", fmt.Sprintf("%ds", budget+60), ".")
	c.Dir = repoDir()
	c.Env = append(os.Environ(), "VERIF_PROP="+id, "VERIF_MODE="+mode, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_SCRATCH="+tmp+"/scratch", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	c.Stdout = out
	c.Stderr = out
	return c.Run()
}
