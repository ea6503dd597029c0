package gost

import (
	"fmt"
	"sort"
)

func vmpairs(m map[I32]I32) string {
	xs := []string{}
	for k, v := range m {
		xs = append(xs, fmt.Sprintf("%d:%d", k, v))
	}
	sort.Strings(xs)
	return fmt.Sprint(xs)
}
func vkeys(m map[I32]bool) string {
	xs := []int{}
	for k := range m {
		xs = append(xs, int(k))
	}
	sort.Ints(xs)
	return fmt.Sprint(xs)
}
func vdrain[T any](it Iterator[T]) []T {
	var out []T
	for {
		x := it.Next()
		if x.IsNone() || len(out) > 100 {
			return out
		}
		out = append(out, x.Unwrap())
	}
}
func vsortstr[T any](xs []T) string {
	out := []string{}
	for _, x := range xs {
		out = append(out, fmt.Sprint(x))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}
func vset(xs []I32) (HashSet[I32], map[I32]bool) {
	s, m := HashSetNew[I32](), map[I32]bool{}
	for _, x := range xs {
		s.Insert(x)
		m[x] = true
	}
	return s, m
}
func vsetkeys(s HashSet[I32]) string {
	m := map[I32]bool{}
	for k := range s.hashMap.data {
		m[k] = true
	}
	return vkeys(m)
}

func vhashmap(r *vrun, clones bool) {
	for n := 0; !r.done() && n < 40000; n++ {
		g := r.rng
		h := HashMapNew[I32, I32]()
		if n%4 == 0 {
			h = HashMapWithCapacity[I32, I32](USize(g.Intn(5)))
		}
		m := map[I32]I32{}
		desc := "HashMap"
		steps := 1 + g.Intn(16)
		for s := 0; s < steps; s++ {
			k, v := I32(g.Intn(6)), I32(g.Intn(5))
			old, ok := m[k]
			wantOld := "None"
			if ok {
				wantOld = fmt.Sprintf("Some(%d)", old)
			}
			var ret, want string
			var run func()
			op := g.Intn(12)
			if clones && g.Intn(2) == 0 {
				op = 12
			}
			switch op {
			default:
				desc += fmt.Sprintf(" Insert(%d,%d)", k, v)
				run, want = func() { ret = vo(h.Insert(k, v)) }, wantOld
				m[k] = v
			case 5, 6:
				desc += fmt.Sprintf(" Remove(%d)", k)
				run, want = func() { ret = vo(h.Remove(k)) }, wantOld
				delete(m, k)
			case 7:
				desc += fmt.Sprintf(" Get/ContainsKey(%d)", k)
				run, want = func() { ret = vo(h.Get(k)) + fmt.Sprint(h.ContainsKey(k)) }, wantOld+fmt.Sprint(ok)
			case 8:
				desc += " Keys"
				run = func() { ret = vsortstr(vdrain(h.Keys())) }
				ks := []I32{}
				for k := range m {
					ks = append(ks, k)
				}
				want = vsortstr(ks)
			case 9:
				desc += " Values"
				run = func() { ret = vsortstr(vdrain(h.Values())) }
				vs := []I32{}
				for _, v := range m {
					vs = append(vs, v)
				}
				want = vsortstr(vs)
			case 10:
				desc += " IntoIter"
				run = func() {
					xs := []string{}
					for _, p := range vdrain(h.IntoIter()) {
						xs = append(xs, fmt.Sprintf("%d:%d", p.Key, p.Value))
					}
					sort.Strings(xs)
					ret = fmt.Sprint(xs)
				}
				want = vmpairs(m)
			case 11:
				if g.Intn(5) == 0 {
					desc += " Clear"
					run = func() { h.Clear() }
					m = map[I32]I32{}
				} else {
					run = func() {}
				}
			case 12:
				o := h.Clone()
				om := map[I32]I32{}
				for k, v := range m {
					om[k] = v
				}
				desc += fmt.Sprintf(" Clone, in the clone Insert(%d,%d)", k, v)
				w1 := vmpairs(m)
				om[k] = v
				same := vmpairs(om) == w1
				want = fmt.Sprint(vmpairs(om), w1, true, same, same)
				run = func() {
					eq0 := h.Eq(h.Clone())
					o.Insert(k, v)
					ret = fmt.Sprint(vmpairs(o.data), vmpairs(h.data), eq0, h.Eq(o), o.Eq(h))
				}
			}
			r.try(desc, func() string {
				run()
				if ret != want {
					return vexpect("result", ret, want)
				}
				if int(h.Len()) != len(m) || bool(h.IsEmpty()) != (len(m) == 0) {
					return vexpect("length", h.Len(), len(m))
				}
				return vexpect("contents", vmpairs(h.AsMap()), vmpairs(m))
			})
		}
	}
}
func vhashset(r *vrun, clones bool) {
	for n := 0; !r.done() && n < 40000; n++ {
		g := r.rng
		dom := 1 + g.Intn(6)
		xs, ys := vslice(g, 6, dom), vslice(g, 6, dom+1)
		if g.Intn(3) == 0 {
			ys = append(append([]I32{}, ys...), xs...)
		}
		a, ma := vset(xs)
		b, mb := vset(ys)
		desc := fmt.Sprintf("HashSet%v HashSet%v", vkeys(ma), vkeys(mb))
		and, or, xor := map[I32]bool{}, map[I32]bool{}, map[I32]bool{}
		sub, sup := true, true
		for i := I32(0); i < 20; i++ {
			if ma[i] && mb[i] {
				and[i] = true
			}
			if ma[i] || mb[i] {
				or[i] = true
			}
			if ma[i] != mb[i] {
				xor[i] = true
			}
			sub = sub && (!ma[i] || mb[i])
			sup = sup && (!mb[i] || ma[i])
		}
		if clones {
			k := I32(g.Intn(dom))
			r.try(desc+" Clone/Eq", func() string {
				c := a.Clone()
				e0 := a.Eq(c)
				c.Insert(k + 10)
				c.Remove(k)
				want := map[I32]bool{k + 10: true}
				for i := range ma {
					if i != k {
						want[i] = true
					}
				}
				return vexpect("clone", fmt.Sprint(e0, a.Eq(b), vsetkeys(c), vsetkeys(a), a.Eq(c)), fmt.Sprint(true, sub && sup, vkeys(want), vkeys(ma), false))
			})
			continue
		}
		two := func(name string, f func(HashSet[I32]) HashSet[I32], want map[I32]bool) {
			r.try(desc+" "+name, func() string {
				c := f(b)
				res := vsetkeys(c)
				c.Insert(99) // the result is a set of its own
				return vexpect(name, res+vsetkeys(a)+vsetkeys(b), vkeys(want)+vkeys(ma)+vkeys(mb))
			})
		}
		two("Union", a.Union, or)
		two("Intersection", a.Intersection, and)
		two("SymmetricDifference", a.SymmetricDifference, xor)
		r.try(desc+" IsSubset IsSuperset IsDisjoint", func() string {
			return vexpect("relations", fmt.Sprint(a.IsSubset(b), a.IsSuperset(b), a.IsDisjoint(b)), fmt.Sprint(sub, sup, len(and) == 0))
		})
		r.try(desc+" AsSlice IntoIter FromSlice", func() string {
			return vexpect("elements", vsortstr(a.AsSlice())+vsortstr(vdrain(a.IntoIter()))+vsetkeys(HashSetFromSlice(xs)), vkeys(ma)+vkeys(ma)+vkeys(ma))
		})
		k := I32(g.Intn(dom + 1))
		wg := "None"
		if ma[k] {
			wg = fmt.Sprintf("Some(%d)", k)
		}
		r.try(fmt.Sprintf("%s element %d", desc, k), func() string {
			got := fmt.Sprint(a.Contains(k), vo(a.Get(k)), a.Insert(k), a.Insert(k), a.Len(), a.Remove(k), a.Remove(k), a.Contains(k), a.Len())
			n := len(ma)
			if ma[k] {
				n--
			}
			want := fmt.Sprint(ma[k], wg, !ma[k], false, n+1, true, false, false, n)
			if got != want {
				return vexpect("Contains Get Insert Insert Len Remove Remove Contains Len", got, want)
			}
			a.Clear()
			return vexpect("Clear", fmt.Sprint(a.Len(), a.IsEmpty()), "0 true")
		})
	}
}

var _ = search("P13", "hash map against a map model", func(r *vrun) { vhashmap(r, false) })
var _ = search("P13", "hash set against a set model", func(r *vrun) { vhashset(r, false) })
var _ = search("P22", "hash map clones", func(r *vrun) { vhashmap(r, true) })
var _ = search("P22", "hash set clones", func(r *vrun) { vhashset(r, true) })
