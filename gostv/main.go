package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/importer"
	goparser "go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded package together with its contracts.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkg   *types.Package
	byKey map[string]*ssa.Function
	specs map[string]*FuncSpec
	ss    *SpecSet
}

func repoDir() string {
	if d := os.Getenv("GOSTV_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func verifDir() string {
	if d := os.Getenv("GOSTV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadProgram() (*Program, error) {
	gobuild.Default.CgoEnabled = false
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(repoDir() + "/*.go")
	var files []*ast.File
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := gobuild.Default.MatchFile(filepath.Dir(f), filepath.Base(f)); err == nil && !ok {
			continue
		}
		a, err := goparser.ParseFile(fset, f, nil, goparser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), GoVersion: "go1.20"}
	pkg, err := conf.Check("gost", fset, files, info)
	if err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(fset, ssa.NaiveForm)
	done := map[*types.Package]bool{}
	var imp func(p *types.Package)
	imp = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			imp(q)
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	for _, q := range pkg.Imports() {
		imp(q)
	}
	sp := prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	p := &Program{fset: fset, prog: prog, pkg: pkg, byKey: map[string]*ssa.Function{}}
	for _, m := range sp.Members {
		switch x := m.(type) {
		case *ssa.Function:
			p.byKey[x.Name()] = x
		case *ssa.Type:
			if n, ok := x.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					o := n.Method(i)
					if f := prog.FuncValue(o); f != nil {
						p.byKey[x.Name()+"."+o.Name()] = f
					}
				}
			}
		}
	}
	p.ss = loadSpecs(verifDir() + "/contracts")
	p.specs = p.ss.funcs
	initStrAxioms()
	initRuneAxioms()
	p.initAxioms()
	initExterns()
	return p, nil
}

// initAxioms turns the axioms of the contract files into background facts.
func (p *Program) initAxioms() {
	v := newVerifier(p, "axioms")
	st := &State{heap: map[string]*Term{}, cells: map[int]*Cell{}, next: namedSym("next0", "Int")}
	for _, a := range p.ss.axs {
		if a.TV == nil {
			addAxiom(v, a, st, nil)
		}
	}
	for _, n := range p.ss.lorder {
		if l := p.ss.lemmas[n]; l.TV == nil && len(l.Pats) > 0 {
			addAxiom(v, l.asAxiom(), st, nil)
		}
	}
}

var polyDone = map[string]bool{}

// polyAxioms instantiates the axioms of a polymorphic spec function for given types.
func (v *Verifier) polyAxioms(u *UFSpec, name string, tb map[string]types.Type) {
	if polyDone[name] {
		return
	}
	polyDone[name] = true
	st := &State{heap: map[string]*Term{}, cells: map[int]*Cell{}, next: namedSym("next0", "Int")}
	for _, a := range v.P.ss.axs {
		if a.Of != u.Name {
			continue
		}
		b := map[string]types.Type{}
		for i, n := range a.TV {
			b[n] = tb[u.TV[i]]
		}
		addAxiom(v, a, st, b)
	}
	for _, n := range v.P.ss.lorder {
		l := v.P.ss.lemmas[n]
		if l.Of != u.Name || len(l.Pats) == 0 {
			continue
		}
		b := map[string]types.Type{}
		for i, n := range l.TV {
			b[n] = tb[u.TV[i]]
		}
		addAxiom(v, l.asAxiom(), st, b)
	}
}

func specBase(f string) string {
	f = filepath.Base(f)
	if i := strings.IndexByte(f, ':'); i > 0 {
		f = f[:i]
	}
	return f
}

// asAxiom states a proved lemma for use in other proofs.
func (l *LemmaSpec) asAxiom() *AxiomSpec {
	all := func(cs []*Clause) *Expr {
		var e *Expr
		for _, c := range cs {
			if e == nil {
				e = c.E
			} else {
				e = &Expr{Op: "bin", Name: "&&", Args: []*Expr{e, c.E}, File: c.E.File, Line: c.E.Line}
			}
		}
		return e
	}
	e := all(l.Ensures)
	if len(l.Requires) > 0 {
		e = &Expr{Op: "bin", Name: "==>", Args: []*Expr{all(l.Requires), e}, File: e.File, Line: e.Line}
	}
	return &AxiomSpec{Name: l.Name, Vars: l.Vars, E: e, Kind: "lemma", Pats: l.Pats}
}

func addAxiom(v *Verifier, a *AxiomSpec, st *State, tb map[string]types.Type) {
	bv := bvMode
	bvMode = false
	defer func() { bvMode = bv }()
	sc := &SpecCtx{v: v, st: st, entry: st, binds: map[string]SV{}, tyBind: tb}
	var vars []*Term
	for _, g := range a.Vars {
		x := sc.bvar(g, &Expr{File: "axiom " + a.Name})
		sc.binds[g.Name] = x
		vars = append(vars, x.V.(*Term))
	}
	t := sc.evalBool(a.E)
	var pats [][]*Term
	trig := map[string]bool{}
	for _, ps := range a.Pats {
		var q []*Term
		for _, e := range ps {
			x := sc.eval(e)
			tm := sc.st.scalar(x.V, x.T)
			collectUFs(tm, trig)
			q = append(q, tm)
		}
		pats = append(pats, q)
	}
	if len(a.Pats) == 0 {
		collectUFs(t, trig)
	}
	axioms = append(axioms, &Axiom{Name: a.Name, Kind: a.Kind, File: specBase(a.E.File), Trig: sortedKeys(trig), T: Forall(vars, t, pats...), AnyOf: len(a.Pats) > 1})
}

func collectUFs(t *Term, m map[string]bool) {
	if _, ok := ufDecls[t.Op]; ok {
		m[t.Op] = true
	}
	for _, a := range t.Args {
		collectUFs(a, m)
	}
}

func dump(p *Program, name string) {
	f := p.byKey[name]
	if f == nil {
		fmt.Println("no function", name)
		return
	}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(f)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gostv dump FUNC | fn UNIT... | worker | check ID [quick|thorough] | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkProperty(os.Args[2], tier))
	case "replay":
		h := runHarness(os.Args[2], "search", envInt("VERIF_SEED", 1), 120)
		fmt.Println(strings.Join(h.lines, "\n"))
		if h.witness != "" {
			fmt.Println("WITNESS", h.witness)
			os.Exit(1)
		}
		if h.err != "" {
			fmt.Println(h.err)
			os.Exit(2)
		}
		return
	case "worker":
		p, err := loadProgram()
		enc := json.NewEncoder(os.Stdout)
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<20)
		for in.Scan() {
			var j Job
			json.Unmarshal(in.Bytes(), &j)
			if err != nil {
				enc.Encode(&UnitResult{Unit: j.Unit, Obls: []OblResult{{Name: "load", Kind: "load", Status: "failed", Detail: err.Error()}}})
				continue
			}
			enc.Encode(runJob(p, j))
		}
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				fmt.Fprintln(os.Stderr, e.msg)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	p, err := loadProgram()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		for _, n := range os.Args[2:] {
			dump(p, n)
		}
	case "list":
		for _, k := range sortedKeys(p.byKey) {
			s := p.specs[k]
			t := ""
			if s != nil {
				t = strings.Join(s.Props, ",")
				if s.Inline {
					t = "inline"
				}
			}
			fmt.Println(k, t)
		}
	case "fn":
		bad := 0
		for _, n := range os.Args[2:] {
			var units []string
			if strings.HasSuffix(n, "*") {
				for _, k := range p.ss.order {
					if strings.HasPrefix(k, strings.TrimSuffix(n, "*")) && !p.specs[k].Inline {
						units = append(units, k)
					}
				}
			} else if strings.HasPrefix(n, "@") {
				for _, k := range p.ss.order {
					for _, pr := range p.specs[k].Props {
						if "@"+pr == n && !p.specs[k].Inline {
							units = append(units, k)
						}
					}
				}
			} else {
				units = []string{n}
			}
			for ui := 0; ui < len(units); ui++ {
				u := units[ui]
				r := runUnit(p, u)
				if os.Getenv("GOSTV_CLOSE") != "" {
					for _, l := range r.Lemmas {
						if !contains(units, "lemma "+l) {
							units = append(units, "lemma "+l)
						}
					}
					for _, l := range r.Used {
						if !contains(units, l) {
							units = append(units, l)
						}
					}
				}
				ok := 0
				for _, o := range r.Obls {
					if o.Status == "proved" {
						ok++
						if os.Getenv("GOSTV_V") != "" {
							fmt.Printf("   ok   %s %s %s %.2fs\n", o.Name, o.Pos, o.Solver, o.Time)
						}
					} else {
						bad++
						fmt.Printf("   FAIL %s %s: %s %s\n", o.Name, o.Pos, o.Status, o.Detail)
						if o.SMT != "" {
							os.WriteFile("/tmp/gostv_fail.smt2", []byte(o.SMT), 0644)
							if os.Getenv("GOSTV_M") != "" {
								fmt.Println(o.Model)
							}
						}
					}
				}
				fmt.Printf("%s: %d/%d proved, %.1fs, %d queries\n", u, ok, len(r.Obls), r.Wall, r.Queries)
				if os.Getenv("GOSTV_V") != "" {
					fmt.Println("   used", r.Used, "lemmas", r.Lemmas, "externs", r.Externs, "inlined", r.Inlined)
					for _, l := range r.Loops {
						fmt.Println("   ", l)
					}
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	}
}
