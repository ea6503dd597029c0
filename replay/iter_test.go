package gost

import (
	"fmt"
	"sort"
)

// viter exercises an iterator that yields what elems lists, consuming k of them first.
func viter[T any](r *vrun, desc string, mk func() Iterator[T], elems func() []T, skip int, f func(T) T, p func(T) Bool, fold func(T, T) T, init T) {
	at := func() (Iterator[T], []T) {
		it := mk()
		for i := 0; i < skip; i++ {
			it.Next()
		}
		e := elems()
		if skip > len(e) {
			return it, nil
		}
		return it, e[skip:]
	}
	show := func(xs []T) string { return fmt.Sprint(xs) }
	lst := func(l LinkedList[T]) []T {
		var s []T
		for n := l.head; n != nil; n = n.next {
			s = append(s, n.value)
		}
		if int(l.Len()) != len(s) {
			panic("length of the list is wrong")
		}
		return s
	}
	ops := map[string]func() string{
		"Next": func() string {
			it, e := at()
			for _, x := range e {
				o := it.Next()
				if o.IsNone() {
					return "Next ended early"
				}
				if m := vexpect("Next", o.Unwrap(), x); m != "" {
					return m
				}
			}
			return vexpect("IsNone", fmt.Sprint(it.Next().IsNone(), it.Next().IsNone()), "true true")
		},
		"Map": func() string {
			it, e := at()
			var w []T
			for _, x := range e {
				w = append(w, f(x))
			}
			return vexpect("Map", show(vdrain(it.Map(f))), show(w))
		},
		"Filter": func() string {
			it, e := at()
			var w []T
			for _, x := range e {
				if p(x) {
					w = append(w, x)
				}
			}
			return vexpect("Filter", show(vdrain(it.Filter(p))), show(w))
		},
		"Fold": func() string {
			it, e := at()
			w := init
			for _, x := range e {
				w = fold(w, x)
			}
			return vexpect("Fold", it.Fold(init, fold), w)
		},
		"Rev": func() string {
			it, e := at()
			var w []T
			for i := range e {
				w = append(w, e[len(e)-1-i])
			}
			return vexpect("Rev", show(vdrain(it.Rev())), show(w))
		},
		"CollectToVec": func() string {
			it, e := at()
			v := it.CollectToVec()
			return vexpect("CollectToVec", show(v.data), show(e))
		},
		"CollectToLinkedList": func() string {
			it, e := at()
			return vexpect("CollectToLinkedList", show(lst(it.CollectToLinkedList())), show(e))
		},
	}
	names := []string{}
	for k := range ops {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.try(fmt.Sprintf("%s, %d taken, then %s", desc, skip, k), ops[k])
	}
}

var _ = search("P17", "iterators against slices", func(r *vrun) {
	for n := 0; !r.done() && n < 8000; n++ {
		g := r.rng
		xs := vslice(g, 7, 9)
		skip := g.Intn(4)
		a, b := I32(g.Intn(5)), I32(1+g.Intn(3))
		f := func(x I32) I32 { return x*b + a }
		p := func(x I32) Bool { return (x+a)%(b+1) == 0 }
		fold := func(x, y I32) I32 { return x*3 - y }
		all := func() []I32 { return xs }
		one := func(name string, mk func() Iterator[I32]) {
			viter(r, fmt.Sprintf("%s of %v", name, xs), mk, all, skip, f, p, fold, a)
		}
		one("Vec.IntoIter", func() Iterator[I32] { return vvec(xs, g.Intn(3)).IntoIter() })
		head, spare := 0, g.Intn(4)
		if len(xs)+spare > 0 {
			head = g.Intn(len(xs) + spare)
		}
		one(fmt.Sprintf("VecDeque(spare %d, head %d).IntoIter", spare, head), func() Iterator[I32] { return vring(xs, spare, head).IntoIter() })
		one("LinkedList.IntoIter", func() Iterator[I32] {
			l := LinkedListNew[I32]()
			for _, x := range xs {
				l.PushBack(x)
			}
			return l.IntoIter()
		})
		v := func() Vec[I32] { return vvec(xs, 0) }
		one("HashMapKeys", func() Iterator[I32] { return &HashMapKeys[I32]{vec: v()} })
		one("HashMapValues", func() Iterator[I32] { return &HashMapValues[I32]{vec: v()} })
		one("HashSetIter", func() Iterator[I32] { return &HashSetIter[I32]{vec: v()} })
		one("BTreeMapKeys", func() Iterator[I32] { return &BTreeMapKeys[I32]{vec: v()} })
		one("BTreeMapValues", func() Iterator[I32] { return &BTreeMapValues[I32]{vec: v()} })
		one("BTreeSetIter", func() Iterator[I32] { return &BTreeSetIter[I32]{vec: v()} })
		type pr = Pair[I32, I32]
		ps := []pr{}
		for i, x := range xs {
			ps = append(ps, pr{Key: x, Value: I32(i)})
		}
		pf := func(x pr) pr { return pr{Key: f(x.Key), Value: x.Value + b} }
		pp := func(x pr) Bool { return p(x.Key) }
		pfold := func(x, y pr) pr { return pr{Key: fold(x.Key, y.Key), Value: x.Value*2 - y.Value} }
		pv := func() Vec[pr] { return Vec[pr]{data: append([]pr{}, ps...)} }
		viter(r, fmt.Sprintf("HashMapIter of %v", ps), func() Iterator[pr] { return &HashMapIter[I32, I32]{vec: pv()} }, func() []pr { return ps }, skip, pf, pp, pfold, pr{Key: a, Value: b})
		viter(r, fmt.Sprintf("BTreeMapIter of %v", ps), func() Iterator[pr] { return &BTreeMapIter[I32, I32]{vec: pv()} }, func() []pr { return ps }, skip, pf, pp, pfold, pr{Key: a, Value: b})
		if n%4 == 0 {
			hm := HashMapNew[I32, I32]()
			hs := HashSetNew[I32]()
			for i, x := range xs {
				hm.Insert(x, I32(i))
				hs.Insert(x)
			}
			r.try(fmt.Sprintf("iterators of a HashMap and a HashSet of %v", xs), func() string {
				m := map[I32]I32{}
				for i, x := range xs {
					m[x] = I32(i)
				}
				w := []pr{}
				ks := []I32{}
				for k, x := range m {
					w = append(w, pr{Key: k, Value: x})
					ks = append(ks, k)
				}
				return vexpect("entries", vsortstr(vdrain(hm.IntoIter()))+vsortstr(vdrain(hs.IntoIter())), vsortstr(w)+vsortstr(ks))
			})
		}
	}
})
