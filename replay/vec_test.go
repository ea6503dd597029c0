package gost

import (
	"fmt"
	"math/rand"
	"sort"
)

func vslice(r *rand.Rand, max, dom int) []I32 {
	n := r.Intn(max + 1)
	xs := make([]I32, n)
	for i := range xs {
		xs[i] = I32(r.Intn(dom))
	}
	return xs
}
func vvec(xs []I32, spare int) Vec[I32] {
	d := make([]I32, len(xs), len(xs)+spare)
	copy(d, xs)
	return Vec[I32]{data: d}
}
func vins(xs []I32, i int, v I32) []I32 {
	return append(append(append([]I32{}, xs[:i]...), v), xs[i:]...)
}

var _ = search("P10", "vector against a slice model", func(r *vrun) {
	for n := 0; !r.done() && n < 60000; n++ {
		g := r.rng
		m := vslice(g, 7, 4)
		v := vvec(m, g.Intn(4))
		desc := fmt.Sprintf("Vec%v cap %d", m, cap(v.data))
		for s := 0; s < 6; s++ {
			if s > 0 && g.Intn(3) == 0 {
				break
			}
			op := g.Intn(19)
			x := I32(g.Intn(5))
			var ret, want string
			m0 := append([]I32{}, m...)
			panics := false
			var run func()
			switch op {
			case 0:
				desc += fmt.Sprintf(" Push(%d)", x)
				run = func() { v.Push(x) }
				m = append(m0, x)
			case 1:
				desc += " Pop"
				run = func() { ret = vo(v.Pop()) }
				if want = "None"; len(m) > 0 {
					want = fmt.Sprintf("Some(%d)", m[len(m)-1])
					m = m0[:len(m)-1]
				}
			case 2:
				i := g.Intn(len(m) + 2)
				desc += fmt.Sprintf(" Insert(%d,%d)", i, x)
				run = func() { v.Insert(USize(i), x) }
				if panics = i > len(m); !panics {
					m = vins(m0, i, x)
				}
			case 3:
				o := vslice(g, 3, 3)
				ov := vvec(o, 1)
				desc += fmt.Sprintf(" Append(%v)", o)
				run = func() { v.Append(&ov); ret = fmt.Sprint(ov.Len()) }
				want = "0"
				m = append(m0, o...)
			case 4:
				desc += " Retain(odd)"
				run = func() { v.Retain(func(e I32) Bool { return e%2 == 1 }) }
				m = nil
				for _, e := range m0 {
					if e%2 == 1 {
						m = append(m, e)
					}
				}
			case 5, 6:
				key := func(e I32) any { return e / 2 }
				if op == 5 {
					desc += " DedupByKey(/2)"
					run = func() { v.DedupByKey(key) }
				} else {
					desc += " Dedup"
					key = func(e I32) any { return e }
					run = func() { v.Dedup() }
				}
				m = nil
				for i, e := range m0 {
					if i == 0 || key(e) != key(m0[i-1]) {
						m = append(m, e)
					}
				}
			case 7:
				i := g.Intn(len(m) + 2)
				desc += fmt.Sprintf(" Get(%d)", i)
				run = func() { ret = vo(v.Get(USize(i))) }
				if want = "None"; i < len(m) {
					want = fmt.Sprintf("Some(%d)", m[i])
				}
			case 8:
				if len(m) == 0 {
					continue
				}
				i := g.Intn(len(m))
				desc += fmt.Sprintf(" Set(%d,%d)", i, x)
				run = func() { ret = vo(v.Set(USize(i), x)) }
				want = "None"
				m = m0
				m[i] = x
			case 9:
				i, j := g.Intn(len(m)+1), g.Intn(len(m)+1)
				desc += fmt.Sprintf(" Swap(%d,%d)", i, j)
				run = func() { v.Swap(USize(i), USize(j)) }
				if panics = i >= len(m) || j >= len(m); !panics {
					m = m0
					m[i], m[j] = m[j], m[i]
				}
			case 10:
				desc += " Reverse"
				run = func() { v.Reverse() }
				m = nil
				for _, e := range m0 {
					m = vins(m, 0, e)
				}
			case 11:
				desc += fmt.Sprintf(" Contains(%d)", x)
				run = func() { ret = fmt.Sprint(v.Contains(x)) }
				w := false
				for _, e := range m {
					w = w || e == x
				}
				want = fmt.Sprint(w)
			case 12:
				desc += fmt.Sprintf(" Fill(%d)", x)
				run = func() { v.Fill(x) }
				m = m0
				for i := range m {
					m[i] = x
				}
			case 13:
				k := I32(0)
				desc += " FillWith(counter)"
				run = func() { v.FillWith(func() I32 { k++; return k }); ret = fmt.Sprint(k) }
				m = m0
				for i := range m {
					m[i] = I32(i + 1)
				}
				want = fmt.Sprint(len(m))
			case 14:
				desc += fmt.Sprintf(" Reserve(%d)", x)
				run = func() { v.Reserve(USize(x)); ret = fmt.Sprint(int(v.Capacity()) >= len(m0)+int(x)) }
				want = "true"
			case 15:
				desc += " Clear"
				run = func() { v.Clear() }
				m = nil
			case 16:
				i := g.Intn(len(m) + 1)
				desc += fmt.Sprintf(" GetUnchecked(%d)", i)
				run = func() { ret = fmt.Sprint(v.GetUnchecked(USize(i))) }
				if panics = i >= len(m); !panics {
					want = fmt.Sprint(m[i])
				}
			case 17:
				i := g.Intn(len(m) + 1)
				desc += fmt.Sprintf(" SetUnchecked(%d,%d)", i, x)
				run = func() { v.SetUnchecked(USize(i), x) }
				if panics = i >= len(m); !panics {
					m = m0
					m[i] = x
				}
			case 18:
				desc += " Len/IsEmpty/AsRef"
				run = func() { ret = fmt.Sprint(v.Len(), v.IsEmpty(), v.AsRef().data) }
				want = fmt.Sprint(len(m), len(m) == 0, m0)
			}
			r.try(desc, func() string {
				if p := vpanics(run); p != panics {
					return vexpect("panics", p, panics)
				}
				if ret != want {
					return vexpect("result", ret, want)
				}
				if !panics {
					return vexpect("contents", v.data, append([]I32{}, m...))
				}
				return ""
			})
			if panics {
				break
			}
		}
	}
	r.try("constructors", func() string {
		a, b, c := VecNew[I32](), VecWithCapacity[I32](9), VecWithLen[I32](3)
		return vexpect("", vj(a.Len(), b.Len(), b.Capacity() >= 9, c.data), "0 0 true [0 0 0]")
	})
})

type vPt struct{ K, I int }

func (a vPt) Cmp(b vPt) Ordering { return vsgn(int64(a.K), int64(b.K)) }
func (a vPt) Eq(b vPt) Bool      { return a.K == b.K }
func (a vPt) Clone() vPt         { return vPt{a.K, a.I + 1000} }

func vpts(r *rand.Rand, max, dom int) []vPt {
	xs := make([]vPt, r.Intn(max+1))
	for i := range xs {
		xs[i] = vPt{r.Intn(dom), i}
	}
	return xs
}

// vsorted compares got with the stable (or any) sorted order of in.
func vsorted(in, got []vPt, stable bool) string {
	w := append([]vPt{}, in...)
	sort.SliceStable(w, func(i, j int) bool { return w[i].K < w[j].K })
	if stable {
		return vexpect("sorted", got, w)
	}
	g := append([]vPt{}, got...)
	if !sort.SliceIsSorted(g, func(i, j int) bool { return g[i].K < g[j].K }) {
		return vexpect("sorted", got, w)
	}
	less := func(a []vPt) func(i, j int) bool { return func(i, j int) bool { return a[i].I < a[j].I } }
	sort.Slice(g, less(g))
	sort.Slice(w, less(w))
	return vexpect("elements", g, w)
}

// vfind checks the answer of a binary search for key k.
func vfind(xs []vPt, k int, o Option[USize]) string {
	has := false
	for _, x := range xs {
		has = has || x.K == k
	}
	if bool(o.IsSome()) != has {
		return vexpect("found", o.IsSome(), has)
	}
	if has && (int(o.Unwrap()) >= len(xs) || xs[o.Unwrap()].K != k) {
		return fmt.Sprintf("index %d is wrong", o.Unwrap())
	}
	return ""
}

var _ = search("P18", "vector search and sort", func(r *vrun) {
	for n := 0; !r.done() && n < 60000; n++ {
		xs := vpts(r.rng, 40, 1+r.rng.Intn(12))
		mk := func() Vec[vPt] { return Vec[vPt]{data: append([]vPt{}, xs...)} }
		rev := func(a, b vPt) Ordering { return a.Cmp(b) }
		for i, f := range []func(v *Vec[vPt]){func(v *Vec[vPt]) { v.Sort() }, func(v *Vec[vPt]) { v.SortBy(rev) }, func(v *Vec[vPt]) { v.SortUnstable() }, func(v *Vec[vPt]) { v.SortUnstableBy(rev) }} {
			v := mk()
			r.try(fmt.Sprintf("Vec sort #%d of %v", i, xs), func() string { f(&v); return vsorted(xs, v.data, i < 2) })
		}
		v := mk()
		sort.SliceStable(v.data, func(i, j int) bool { return v.data[i].K < v.data[j].K })
		k := r.rng.Intn(14) - 1
		r.try(fmt.Sprintf("BinarySearch(%d) in %v", k, v.data), func() string { return vfind(v.data, k, v.BinarySearch(vPt{k, 0})) })
		r.try(fmt.Sprintf("BinarySearchBy(%d) in %v", k, v.data), func() string {
			return vfind(v.data, k, v.BinarySearchBy(func(p vPt) Ordering { return p.Cmp(vPt{k, 0}) }))
		})
	}
})

var _ = search("P22", "Vec clone and equality", func(r *vrun) {
	for n := 0; !r.done() && n < 30000; n++ {
		xs, ys := vpts(r.rng, 4, 3), vpts(r.rng, 4, 3)
		v, w := Vec[vPt]{data: xs}, Vec[vPt]{data: ys}
		r.try(fmt.Sprint("Vec.Eq ", xs, ys), func() string {
			e := len(xs) == len(ys)
			for i := 0; e && i < len(xs); i++ {
				e = xs[i].K == ys[i].K
			}
			return vexpect("", v.Eq(w), e)
		})
		r.try(fmt.Sprint("Vec.Clone ", xs), func() string {
			want := []vPt{}
			for _, x := range xs {
				want = append(want, x.Clone())
			}
			before := fmt.Sprint(xs)
			c := v.Clone()
			if s := vexpect("clone", c.data, want); s != "" {
				return s
			}
			for i := range c.data {
				c.data[i].K = 99
			}
			return vexpect("original after changing the clone", v.data, before)
		})
	}
})
