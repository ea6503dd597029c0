package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct{ F []Val }
type SliceV struct{ Arr, Off, Len, Cap *Term }
type TupleV []Val
type IfaceV struct {
	Dyn types.Type // nil: the nil interface
	V   Val
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Env  tenv
}

// LocV is a pointer value known on the generator's side.
type LocV struct {
	kind string // "cell", "heap", "elem"
	cell int
	ref  *Term      // heap: object reference
	base types.Type // heap: type of object at ref; elem: element type
	arr  *Term
	idx  *Term
	path []int
	typ  types.Type // type of the location itself
}

// MapIterV is the state of a range over a map or string (held in a cell).
type MapIterV struct {
	cell int // cell holding the visited set
	m    *Term
	mt   *types.Map
	str  *Term
}

type Cell struct {
	typ  types.Type
	val  Val
	fwd  *Term // promoted to heap reference
	name string
}

type pcNode struct {
	up   *pcNode
	t    *Term
	fact bool
	n    int
}

type State struct {
	heap   map[string]*Term
	cells  map[int]*Cell
	pc     *pcNode
	next   *Term
	nalloc int
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	c := make(map[int]*Cell, len(s.cells))
	for k, v := range s.cells {
		c[k] = v
	}
	return &State{heap: h, cells: c, pc: s.pc, next: s.next}
}
func (s *State) push(t *Term, fact bool) {
	if t.Op == "true" {
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.push(a, fact)
		}
		return
	}
	s.pc = &pcNode{s.pc, t, fact, n + 1}
}
func (s *State) assume(t *Term) { s.push(t, true) }
func (s *State) branch(t *Term) { s.push(t, false) }
func (s *State) hyps() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for p := s.pc; p != nil; p = p.up {
		if !seen[p.t] {
			seen[p.t] = true
			out = append(out, p.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// infeasible detects syntactic contradiction of t with the path.
func (s *State) contradicts(t *Term) bool {
	if t.Op == "false" {
		return true
	}
	n := Not(t)
	for p := s.pc; p != nil; p = p.up {
		if p.t == n {
			return true
		}
	}
	return false
}
func (s *State) knows(t *Term) bool {
	if t.Op == "true" {
		return true
	}
	for p := s.pc; p != nil; p = p.up {
		if p.t == t {
			return true
		}
	}
	return false
}

const maxLen = int64(1) << 48

// heapName is the SMT array holding one leaf of every object of a type.
func heapName(base types.Type, path string) string { return "H|" + typeKey(base) + "|" + path }
func elemHeap(el types.Type, path string) string   { return "A|" + typeKey(el) + "|" + path }
func mapDom(m *types.Map) string                   { return "MD|" + typeKey(m.Key()) }
func mapVal(m *types.Map, path string) string {
	return "MV|" + typeKey(m.Key()) + "|" + typeKey(m.Elem()) + "|" + path
}

var heapSorts = map[string]string{}

func (s *State) getHeap(name, sort string) *Term {
	heapSorts[name] = sort
	if t, ok := s.heap[name]; ok {
		return t
	}
	t := namedSym("h0_"+cleanName(name), sort)
	s.heap[name] = t
	return t
}

func rangedSym(name string, l leaf) *Term {
	return rangeLeaf(freshSym(name, l.sort), l)
}
func rangeLeaf(t *Term, l leaf) *Term {
	if l.sort != "Int" {
		return t
	}
	switch l.kind {
	case "arr":
		return withRange(t, big.NewInt(0), nil)
	case "off", "len", "cap":
		return withRange(t, big.NewInt(0), big.NewInt(maxLen))
	}
	if ii, ok := intInfoOf(l.typ); ok {
		return withRange(t, ii.min(), ii.max())
	}
	return withRange(t, big.NewInt(0), nil) // references
}

// build assembles a value of type t from leaf terms.
func build(t types.Type, ls []*Term) Val {
	v, rest := build1(t, ls)
	if len(rest) != 0 {
		panic("build: leftover leaves")
	}
	return v
}
func build1(t types.Type, ls []*Term) (Val, []*Term) {
	if scalarSort(t) != "" {
		return ls[0], ls[1:]
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = build1(u.Field(i).Type(), ls)
			sv.F = append(sv.F, f)
		}
		return sv, ls
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3]}, ls[4:]
	}
	unsup("build %s", typeKey(t))
	return nil, nil
}

// rawLeaves lists the leaves of v; entries may be *Term or special generator-side values.
func rawLeaves(v Val, t types.Type) []Val {
	if scalarSort(t) != "" {
		return []Val{v}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv, ok := v.(*StructV)
		if !ok {
			unsup("struct value expected for %s, have %T", typeKey(t), v)
		}
		var out []Val
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, rawLeaves(sv.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Slice:
		s := v.(*SliceV)
		return []Val{s.Arr, s.Off, s.Len, s.Cap}
	}
	unsup("rawLeaves %s", typeKey(t))
	return nil
}
func buildRaw(t types.Type, ls []Val) Val {
	v, _ := buildRaw1(t, ls)
	return v
}
func buildRaw1(t types.Type, ls []Val) (Val, []Val) {
	if scalarSort(t) != "" {
		return ls[0], ls[1:]
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = buildRaw1(u.Field(i).Type(), ls)
			sv.F = append(sv.F, f)
		}
		return sv, ls
	case *types.Slice:
		return &SliceV{ls[0].(*Term), ls[1].(*Term), ls[2].(*Term), ls[3].(*Term)}, ls[4:]
	}
	unsup("buildRaw %s", typeKey(t))
	return nil, nil
}

// flatten turns a value into leaf terms, promoting cells to the heap where needed.
func (s *State) flatten(v Val, t types.Type) []*Term {
	raw := rawLeaves(v, t)
	ls := leavesOf(t)
	out := make([]*Term, len(raw))
	for i, r := range raw {
		lt := ls[i].typ
		out[i] = s.scalar(r, lt)
		if out[i].Sort != ls[i].sort {
			unsup("flatten %s: leaf %s has sort %s want %s", typeKey(t), ls[i].path, out[i].Sort, ls[i].sort)
		}
	}
	return out
}

var funcTags = map[string]int{}

// scalar turns a scalar value into a term.
func (s *State) scalar(v Val, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *LocV:
		return s.refOf(x)
	case *IfaceV:
		if x.Dyn == nil {
			if t != nil && scalarSort(t) != "Any" {
				return UF("nil_"+scalarSort(t), scalarSort(t))
			}
			return UF("any_nil", "Any")
		}
		if t != nil && scalarSort(t) != "Any" { // e.g. reflect.Value holding a value
			inner := s.scalar(&IfaceV{x.Dyn, x.V}, nil)
			return UF("wrap_"+scalarSort(t), scalarSort(t), inner)
		}
		return s.box(x.Dyn, x.V)
	case *FuncV:
		key := x.Fn.RelString(nil)
		args := []*Term{}
		for i, b := range x.Bind {
			args = append(args, s.flatten(b, x.Fn.FreeVars[i].Type())...)
		}
		return UF("closure_"+key, "Func", args...)
	case nil:
		unsup("no value")
	}
	unsup("scalar of %T", v)
	return nil
}

var tagIDs = map[string]int{}

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	if isTypeParam(t) {
		// tag of an unknown instantiation
		return UF("tag_of_"+k, "Int")
	}
	if _, ok := tagIDs[k]; !ok {
		tagIDs[k] = len(tagIDs) + 1
	}
	return Int(int64(tagIDs[k]))
}

var boxed = map[string]bool{}

func boxName(t types.Type) string { return "box_" + cleanName(typeKey(t)) }

// box injects a value of type t into Any.
func (s *State) box(t types.Type, v Val) *Term {
	ls := s.flatten(v, t)
	declBox(t)
	r := UF(boxName(t), "Any", ls...)
	return r
}
func declBox(t types.Type) {
	n := boxName(t)
	if boxed[n] {
		return
	}
	boxed[n] = true
	lv := leavesOf(t)
	var vars, args []*Term
	for _, l := range lv {
		b := freshBVar("b", l.sort)
		vars = append(vars, b)
		args = append(args, b)
	}
	app := UF(n, "Any", args...)
	var cs []*Term
	for i, l := range lv {
		cs = append(cs, Eq(UF(fmt.Sprintf("un%s_%d", n, i), l.sort, app), vars[i]))
	}
	cs = append(cs, Eq(UF("anytag", "Int", app), typeTag(t)))
	cs = append(cs, Not(Eq(app, UF("any_nil", "Any"))))
	var ax *Term
	if len(vars) > 0 {
		ax = Forall(vars, And(cs...), []*Term{app})
	} else {
		ax = And(cs...)
	}
	axioms = append(axioms, &Axiom{Name: n, Trig: []string{n}, T: ax, Kind: "definition"})
	// surjectivity: a value carrying the tag is the box of its components
	x := freshBVar("a", "Any")
	var us []*Term
	for i, l := range lv {
		us = append(us, UF(fmt.Sprintf("un%s_%d", n, i), l.sort, x))
	}
	if len(us) > 0 {
		axioms = append(axioms, &Axiom{Name: n + "_sur", Trig: []string{n, fmt.Sprintf("un%s_0", n)}, Kind: "definition",
			T: Forall([]*Term{x}, Implies(Eq(UF("anytag", "Int", x), typeTag(t)), Eq(UF(n, "Any", us...), x)), []*Term{us[0]})})
	}
}
func (s *State) unbox(t types.Type, a *Term) Val {
	declBox(t)
	n := boxName(t)
	var ts []*Term
	for i, l := range leavesOf(t) {
		ts = append(ts, rangeLeaf(UF(fmt.Sprintf("un%s_%d", n, i), l.sort, a), l))
	}
	return build(t, ts)
}

// refOf yields the reference term of a pointer, moving a local cell to the heap if necessary.
func (s *State) refOf(l *LocV) *Term {
	switch l.kind {
	case "cell":
		c := s.cells[l.cell]
		if c == nil {
			unsup("dangling cell")
		}
		if len(l.path) != 0 {
			unsup("pointer to field of a local escapes")
		}
		if c.fwd == nil {
			r := s.alloc()
			nc := *c
			nc.fwd = r
			s.cells[l.cell] = &nc
			hl := &LocV{kind: "heap", ref: r, base: c.typ, typ: c.typ}
			s.storeLoc(hl, c.val)
			promoted[l.cell] = true
		}
		return s.cells[l.cell].fwd
	case "heap":
		if len(l.path) == 0 {
			return l.ref
		}
		unsup("pointer to a field escapes")
	}
	unsup("pointer to slice element escapes")
	return nil
}

var promoted = map[int]bool{}

func (s *State) alloc() *Term {
	r := s.next
	s.next = Add(s.next, Int(1))
	return r
}

func fieldPath(t types.Type, path []int) (string, types.Type) {
	p := ""
	for _, i := range path {
		st := structOf(t)
		p += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return p, t
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.(*StructV).F[i]
	}
	return v
}
func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	sv := v.(*StructV)
	n := &StructV{append([]Val{}, sv.F...)}
	n.F[path[0]] = setPath(sv.F[path[0]], path[1:], x)
	return n
}

// resolve forwards promoted cells.
func (s *State) resolve(l *LocV) *LocV {
	if l.kind == "cell" {
		c := s.cells[l.cell]
		if c == nil {
			unsup("dangling cell")
		}
		if c.fwd != nil {
			return &LocV{kind: "heap", ref: c.fwd, base: c.typ, path: l.path, typ: l.typ}
		}
	}
	return l
}

func (s *State) loadLoc(l *LocV) Val {
	l = s.resolve(l)
	switch l.kind {
	case "cell":
		return getPath(s.cells[l.cell].val, l.path)
	case "heap":
		pre, t := fieldPath(l.base, l.path)
		var ts []*Term
		lv := leavesOf(t)
		for _, lf := range lv {
			h := s.getHeap(heapName(l.base, pre+lf.path), arrSort("Int", lf.sort))
			ts = append(ts, rangeLeaf(Select(h, l.ref), lf))
		}
		s.wfFacts(lv, ts)
		return build(t, ts)
	case "elem":
		pre, t := fieldPath(l.base, l.path)
		var ts []*Term
		lv := leavesOf(t)
		for _, lf := range lv {
			h := s.getHeap(elemHeap(l.base, pre+lf.path), arrSort("Int", arrSort("Int", lf.sort)))
			ts = append(ts, rangeLeaf(Select(Select(h, l.arr), l.idx), lf))
		}
		s.wfFacts(lv, ts)
		return build(t, ts)
	}
	panic("loadLoc")
}

// wfFacts records well-formedness of values read from memory (or received).
func (s *State) wfFacts(lv []leaf, ts []*Term) {
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		if t.bound || t.Op == "int" {
			continue
		}
		switch lv[i].kind {
		case "arr":
			s.assumeOnce(Lt(t, s.next))
			if !ts[i+3].bound {
				s.assumeOnce(Le(ts[i+2], ts[i+3]))
				s.assumeOnce(Le(Int(0), ts[i+2]))
				s.assumeOnce(Le(Add(ts[i+1], ts[i+3]), Int(maxLen)))
				s.assumeOnce(Implies(Eq(t, Int(0)), Eq(ts[i+3], Int(0))))
			}
		case "":
			if lv[i].sort == "Int" && lv[i].typ != nil {
				if _, ok := intInfoOf(lv[i].typ); !ok {
					s.assumeOnce(Lt(t, s.next))
				}
			}
		}
	}
}
func (s *State) assumeOnce(t *Term) {
	if t.bound || s.knows(t) {
		return
	}
	s.assume(t)
}

func (s *State) storeLoc(l *LocV, v Val) {
	l = s.resolve(l)
	switch l.kind {
	case "cell":
		c := *s.cells[l.cell]
		c.val = setPath(c.val, l.path, v)
		s.cells[l.cell] = &c
	case "heap":
		pre, t := fieldPath(l.base, l.path)
		ts := s.flatten(v, t)
		for i, lf := range leavesOf(t) {
			n := heapName(l.base, pre+lf.path)
			h := s.getHeap(n, arrSort("Int", lf.sort))
			s.hstore(n, h, l.ref, ts[i])
		}
	case "elem":
		pre, t := fieldPath(l.base, l.path)
		ts := s.flatten(v, t)
		for i, lf := range leavesOf(t) {
			n := elemHeap(l.base, pre+lf.path)
			h := s.getHeap(n, arrSort("Int", arrSort("Int", lf.sort)))
			s.hstore(n, h, l.arr, Store(Select(h, l.arr), l.idx, ts[i]))
		}
	}
}

var cellCount int

func (s *State) newCell(name string, t types.Type, v Val) *LocV {
	cellCount++
	s.cells[cellCount] = &Cell{typ: t, val: v, name: name}
	return &LocV{kind: "cell", cell: cellCount, typ: t}
}

func zeroOf(t types.Type) Val {
	if s := scalarSort(t); s != "" {
		return zeroScalar(t, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, zeroOf(u.Field(i).Type()))
		}
		return sv
	case *types.Slice:
		return &SliceV{Int(0), Int(0), Int(0), Int(0)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroOf(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero of %s", typeKey(t))
	return nil
}
func zeroScalar(t types.Type, s string) Val {
	if ii, ok := intInfoOf(t); ok {
		if bvMode {
			return BV(new(big.Int), ii.bits)
		}
		return Int(0)
	}
	switch {
	case s == "Bool":
		return tFalse
	case s == "Int":
		return Int(0)
	case s == "Any":
		return &IfaceV{}
	case s == "Str":
		return strLit("")
	case s == "Float64":
		return App("lit", "Float64").named("(_ +zero 11 53)")
	case s == "Float32":
		return App("lit", "Float32").named("(_ +zero 8 24)")
	case s == "Func":
		return UF("nil_Func", "Func")
	}
	return UF("zero_"+s, s)
}

func (t *Term) named(n string) *Term {
	return mkTerm(&Term{Op: t.Op, Sort: t.Sort, Name: n, Args: t.Args})
}

// freshVal makes an arbitrary value of type t.
func (s *State) freshVal(name string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, s.freshVal(fmt.Sprintf("%s_%d", name, i), tt.At(i).Type()))
		}
		return tv
	}
	var ts []*Term
	lv := leavesOf(t)
	for _, l := range lv {
		ts = append(ts, rangedSym(name+l.path, l))
	}
	s.wfFacts(lv, ts)
	return build(t, ts)
}

// asLoc views a pointer value as a location.
func asLoc(v Val, pt types.Type) *LocV {
	el := derefType(pt)
	switch x := v.(type) {
	case *LocV:
		return x
	case *Term:
		if el == nil {
			unsup("asLoc on %s", typeKey(pt))
		}
		return &LocV{kind: "heap", ref: x, base: el, typ: el}
	}
	unsup("asLoc %T", v)
	return nil
}
