package gost

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// BTreeMap and BTreeSet against a Go map; keys are ordered by k alone, id tells equal keys apart.
type vbk struct{ k, id int }

func (a vbk) Cmp(b vbk) Ordering {
	if a.k < b.k {
		return OrderingLess
	} else if a.k > b.k {
		return OrderingGreater
	}
	return OrderingEqual
}
func (a vbk) Eq(b vbk) Bool   { return a.k == b.k }
func (a vbk) Clone() vbk      { return a }
func (a vbk) Display() String { return String(fmt.Sprint(a.k, "#", a.id)) }

type vbe struct{ id, v int }

func vbo(o Option[I32]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprint(int(o.Unwrap()))
}

func vbkeys(m map[int]vbe) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// everything a reader can see
func vbcheck(t *BTreeMap[vbk, I32], m map[int]vbe) string {
	ks := vbkeys(m)
	var kk, vv, pp []string
	for _, k := range ks {
		e := m[k]
		kk = append(kk, fmt.Sprint(vbk{k, e.id}))
		vv = append(vv, fmt.Sprint(e.v))
		pp = append(pp, fmt.Sprint(vbk{k, e.id}, "=", e.v))
	}
	var gk, gv, gp []string
	for it, i := t.Keys(), 0; i <= 2*len(ks)+2; i++ {
		x := it.Next()
		if x.IsNone() {
			break
		}
		gk = append(gk, fmt.Sprint(x.Unwrap()))
	}
	for it, i := t.Values(), 0; i <= 2*len(ks)+2; i++ {
		x := it.Next()
		if x.IsNone() {
			break
		}
		gv = append(gv, fmt.Sprint(int(x.Unwrap())))
	}
	for it, i := t.IntoIter(), 0; i <= 2*len(ks)+2; i++ {
		x := it.Next()
		if x.IsNone() {
			break
		}
		gp = append(gp, fmt.Sprint(x.Unwrap().Key, "=", int(x.Unwrap().Value)))
	}
	for _, p := range [][3]string{{"Keys", strings.Join(gk, ","), strings.Join(kk, ",")}, {"Values", strings.Join(gv, ","), strings.Join(vv, ",")}, {"IntoIter", strings.Join(gp, ","), strings.Join(pp, ",")}} {
		if p[1] != p[2] {
			return fmt.Sprintf("%s yields %s, expected %s", p[0], p[1], p[2])
		}
	}
	if t.Len() != USize(len(m)) || t.IsEmpty() != Bool(len(m) == 0) {
		return fmt.Sprintf("Len %d IsEmpty %v, expected %d", t.Len(), t.IsEmpty(), len(m))
	}
	return ""
}

type vbop struct {
	op, k, v int
}

func (o vbop) String() string {
	return fmt.Sprintf("%s(%d)", [...]string{"Insert", "Remove", "Get", "Clear"}[o.op], o.k)
}

// vbplay runs a history; it reads everything after every step (deep) or now and then.
func vbplay(ops []vbop, deep bool) string {
	t, m := BTreeMapNew[vbk, I32](), map[int]vbe{}
	for i, o := range ops {
		e, ok := m[o.k]
		want := "None"
		if ok {
			want = fmt.Sprint(e.v)
		}
		got := ""
		switch o.op {
		case 0:
			got = vbo(t.Insert(vbk{o.k, i}, I32(o.v)))
			if ok {
				m[o.k] = vbe{e.id, o.v}
			} else {
				m[o.k] = vbe{i, o.v}
			}
		case 1:
			got = vbo(t.Remove(vbk{o.k, -1}))
			delete(m, o.k)
		case 2:
			got = vbo(t.Get(vbk{o.k, -1}))
			if bool(t.ContainsKey(vbk{o.k, -1})) != ok {
				return fmt.Sprintf("step %d ContainsKey(%d) is %v", i, o.k, !ok)
			}
		case 3:
			t.Clear()
			m = map[int]vbe{}
			got, want = "", ""
		}
		if got != want {
			return fmt.Sprintf("step %d %v returned %s, expected %s", i, o, got, want)
		}
		if deep || i%17 == 0 || i == len(ops)-1 {
			if s := vbcheck(&t, m); s != "" {
				return fmt.Sprintf("after step %d %v: %s", i, o, s)
			}
		}
	}
	for k := -1; k <= 2*len(ops) && k < 300; k++ {
		if g, w := vbo(t.Get(vbk{k, -2})), m[k]; (g == "None") == func() bool { _, ok := m[k]; return ok }() || g != "None" && g != fmt.Sprint(w.v) {
			return fmt.Sprintf("final Get(%d) = %s", k, g)
		}
	}
	return ""
}

// vbhist makes a history: a build-up in some order, then removals in some order, then mixed operations.
func vbhist(g *rand.Rand, n int) []vbop {
	var ops []vbop
	ord := func(step int) []int {
		xs := make([]int, n)
		for i := range xs {
			xs[i] = i * step
		}
		switch g.Intn(4) {
		case 0:
		case 1:
			for i := range xs {
				xs[i] = (n - 1 - i) * step
			}
		case 2:
			g.Shuffle(n, func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		case 3: // from both ends inwards
			for i := range xs {
				if i%2 == 0 {
					xs[i] = i / 2 * step
				} else {
					xs[i] = (n - 1 - i/2) * step
				}
			}
		}
		return xs
	}
	for _, k := range ord(2) {
		ops = append(ops, vbop{0, k, g.Intn(1000)})
	}
	switch g.Intn(3) {
	case 0:
		for _, k := range ord(2) {
			ops = append(ops, vbop{1, k + g.Intn(10)/9, 0})
		}
	case 1:
		for i := 0; i < 2*n; i++ {
			ops = append(ops, vbop{g.Intn(3), g.Intn(2*n + 2), g.Intn(1000)})
		}
	case 2:
		a, b := g.Intn(n+1)*2, g.Intn(n+1)*2
		if a > b {
			a, b = b, a
		}
		for k := a; k < b; k++ {
			ops = append(ops, vbop{1, k, 0})
		}
		for i := 0; i < n; i++ {
			ops = append(ops, vbop{g.Intn(2), g.Intn(2*n + 2), g.Intn(1000)})
		}
	}
	if g.Intn(20) == 0 {
		ops = append(ops, vbop{3, 0, 0}, vbop{0, 5, 1}, vbop{0, 3, 2})
	}
	return ops
}

// A failing history is cut down before it is reported.
func vbshrink(ops []vbop) []vbop {
	bad := func(o []vbop) (b bool) {
		defer func() {
			if recover() != nil {
				b = true
			}
		}()
		return vbplay(o, true) != ""
	}
	if !bad(ops) {
		return ops
	}
	for step := len(ops) / 2; step > 0; step /= 2 {
		for i := 0; i+step <= len(ops); {
			c := append(append([]vbop{}, ops[:i]...), ops[i+step:]...)
			if bad(c) {
				ops = c
			} else {
				i += step
			}
		}
	}
	return ops
}

var _ = bounded("P14", "BTreeMap histories of up to 900 operations over up to 600 keys against a Go map", func(r *vrun) {
	for n := 0; !r.done() && n < 6000; n++ {
		size := 1 + r.rng.Intn(40)
		switch {
		case n%7 == 3:
			size = 60 + r.rng.Intn(120)
		case n%31 == 5:
			size = 200 + r.rng.Intn(100)
		}
		ops := vbhist(r.rng, size)
		var small []vbop
		r.try(fmt.Sprintf("BTreeMap history %d of %d operations", n, len(ops)), func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprintf("unexpected panic: %v", e)
				}
				if s != "" {
					small = vbshrink(ops)
					func() {
						defer func() {
							if e := recover(); e != nil {
								s = fmt.Sprintf("unexpected panic: %v", e)
							}
						}()
						if t := vbplay(small, true); t != "" {
							s = t
						}
					}()
					s = fmt.Sprintf("%s; history %v", s, small)
				}
			}()
			return vbplay(ops, size <= 40)
		})
	}
})

func vbset(xs []int) (BTreeSet[vbk], map[int]bool) {
	s, m := BTreeSetNew[vbk](), map[int]bool{}
	for _, x := range xs {
		s.Insert(vbk{x, 0})
		m[x] = true
	}
	return s, m
}
func vbsetkeys(s BTreeSet[vbk], limit int) string {
	var out []int
	for it, i := s.IntoIter(), 0; i <= limit; i++ {
		x := it.Next()
		if x.IsNone() {
			break
		}
		out = append(out, x.Unwrap().k)
	}
	return fmt.Sprint(out)
}
func vbsorted(m map[int]bool) string {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return fmt.Sprint(out)
}

func vbsets(r *vrun, clones bool) {
	for n := 0; !r.done() && n < 20000; n++ {
		g := r.rng
		size := 1 + g.Intn(30)
		if n%9 == 0 {
			size = 30 + g.Intn(60)
		}
		pick := func() []int {
			var xs []int
			for i, c := 0, g.Intn(size+1); i < c; i++ {
				xs = append(xs, g.Intn(size+size/2+1))
			}
			return xs
		}
		xs, ys := pick(), pick()
		if g.Intn(4) == 0 { // related operands
			ys = append([]int{}, xs...)
			if g.Intn(2) == 0 && len(ys) > 0 {
				ys = ys[:g.Intn(len(ys))]
			}
			if g.Intn(2) == 0 {
				xs, ys = ys, xs
			}
		}
		r.try(fmt.Sprintf("BTreeSets of %v and %v", xs, ys), func() string {
			a, A := vbset(xs)
			b, B := vbset(ys)
			and, or, xor, sub := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
			for k := range A {
				or[k] = true
				if B[k] {
					and[k] = true
				} else {
					xor[k] = true
					sub[k] = true
				}
			}
			for k := range B {
				or[k] = true
				if !A[k] {
					xor[k] = true
				}
			}
			lim := 3 * (len(A) + len(B) + 2)
			if clones {
				if s := vexpect("Eq", a.Eq(b), Bool(len(xor) == 0)); s != "" {
					return s
				}
				c := a.Clone()
				if s := vexpect("Clone", vbsetkeys(c, lim), vbsorted(A)); s != "" {
					return s
				}
				c.Insert(vbk{10000, 0})
				for k := range A {
					c.Remove(vbk{k, 0})
					break
				}
				if s := vexpect("original after a change of the clone", vbsetkeys(a, lim), vbsorted(A)); s != "" {
					return s
				}
				ma, mb := BTreeMapNew[vbk, I32](), BTreeMapNew[vbk, I32]()
				same := len(xor) == 0
				for k := range A {
					ma.Insert(vbk{k, 0}, I32(k))
				}
				for k := range B {
					v := I32(k)
					if g.Intn(20) == 0 {
						v = 77777
						same = false
					}
					mb.Insert(vbk{k, 1}, v)
				}
				return vexpect("BTreeMap Eq", ma.Eq(&mb), same)
			}
			for _, c := range []struct {
				op        string
				got, want any
			}{
				{"IsSubset", a.IsSubset(b), len(sub) == 0}, {"IsSuperset", a.IsSuperset(b), len(and) == len(B)}, {"IsDisjoint", a.IsDisjoint(b), len(and) == 0},
				{"Intersection", vbsetkeys(a.Intersection(b), lim), vbsorted(and)}, {"Union", vbsetkeys(a.Union(b), lim), vbsorted(or)},
				{"SymmetricDifference", vbsetkeys(a.SymmetricDifference(b), lim), vbsorted(xor)},
				{"left operand after", vbsetkeys(a, lim), vbsorted(A)}, {"right operand after", vbsetkeys(b, lim), vbsorted(B)}, {"Len", a.Len(), len(A)}, {"IsEmpty", a.IsEmpty(), len(A) == 0},
			} {
				if s := vexpect(c.op, c.got, c.want); s != "" {
					return s
				}
			}
			for i := 0; i < 3*size; i++ {
				k := g.Intn(size + size/2 + 2)
				had := A[k]
				switch g.Intn(3) {
				case 0:
					if s := vexpect(fmt.Sprintf("Insert(%d)", k), a.Insert(vbk{k, 1}), !had); s != "" {
						return s
					}
					A[k] = true
				case 1:
					if s := vexpect(fmt.Sprintf("Remove(%d)", k), a.Remove(vbk{k, 1}), had); s != "" {
						return s
					}
					delete(A, k)
				case 2:
					if s := vexpect(fmt.Sprintf("Contains(%d)", k), a.Contains(vbk{k, 1}), had); s != "" {
						return s
					}
				}
			}
			if s := vexpect("after inserts and removes", vbsetkeys(a, lim+9*size), vbsorted(A)); s != "" {
				return s
			}
			if s := vexpect("Len after", a.Len(), len(A)); s != "" {
				return s
			}
			a.Clear()
			return vexpect("after Clear", fmt.Sprintf("%v %v %v", vbsetkeys(a, lim), a.Len(), a.IsEmpty()), "[] 0 true")
		})
	}
}

var _ = bounded("P15", "BTreeSets of up to 90 elements against Go maps", func(r *vrun) { vbsets(r, false) })
var _ = bounded("P22", "clones and equality of BTreeSets of up to 90 elements and of BTreeMaps", func(r *vrun) { vbsets(r, true) })
