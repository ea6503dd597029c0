package gost

import (
	"fmt"
	"sort"
)

func vpint(xs []int) string { return fmt.Sprint(xs) }

var _ = search("P16", "binary heap against a sorted list", func(r *vrun) {
	for n := 0; !r.done() && n < 60000; n++ {
		g := r.rng
		h := BinaryHeapNew[I32]()
		if n%3 == 0 {
			h = BinaryHeapWithCapacity[I32](USize(g.Intn(5)))
		}
		m := []int{} // ascending
		add := func(x int) { m = append(m, x); sort.Ints(m) }
		desc := "BinaryHeap"
		dom := 1 + g.Intn(20)
		steps := 1 + g.Intn(24)
		for s := 0; s < steps; s++ {
			op := g.Intn(12)
			var ret, want string
			var run func()
			switch op {
			default:
				x := g.Intn(dom) - dom/2
				desc += fmt.Sprintf(" Push(%d)", x)
				run = func() { h.Push(I32(x)) }
				add(x)
			case 6, 7, 8:
				desc += " Pop"
				run = func() { ret = vo(h.Pop()) }
				if want = "None"; len(m) > 0 {
					want = fmt.Sprintf("Some(%d)", m[len(m)-1])
					m = m[:len(m)-1]
				}
			case 9:
				o := BinaryHeapNew[I32]()
				xs := vslice(g, 6, dom)
				for _, x := range xs {
					o.Push(x)
					add(int(x))
				}
				desc += fmt.Sprintf(" Append(%v)", xs)
				run = func() { h.Append(&o); ret = fmt.Sprint(o.Len(), o.IsEmpty()) }
				want = fmt.Sprint(0, true)
			case 10:
				if g.Intn(8) == 0 {
					desc += " Clear"
					run = func() { h.Clear() }
					m = []int{}
				} else {
					k := g.Intn(5)
					desc += fmt.Sprintf(" Reserve(%d)", k)
					run = func() { h.Reserve(USize(k)); ret = fmt.Sprint(int(h.Capacity()) >= len(m)+k) }
					want = "true"
				}
			case 11:
				if g.Intn(4) > 0 {
					desc += " AsSlice/IntoVec"
					run = func() {
						for _, xs := range [][]I32{h.AsSlice(), h.IntoVec().data} {
							ys := []int{}
							for _, x := range xs {
								ys = append(ys, int(x))
							}
							sort.Ints(ys)
							ret += vpint(ys)
						}
					}
					want = vpint(m) + vpint(m)
				} else {
					desc += " IntoSortedVec"
					run = func() { ret = fmt.Sprint(h.IntoSortedVec().data) }
					want = vpint(m)
					s = steps
				}
			}
			r.try(desc, func() string {
				run()
				if ret != want {
					return vexpect("result", ret, want)
				}
				if s >= steps {
					return vexpect("length after consuming", h.Len(), 0)
				}
				if len(m) != int(h.Len()) || bool(h.IsEmpty()) != (len(m) == 0) {
					return vexpect("length", h.Len(), len(m))
				}
				return ""
			})
			if s >= steps {
				break
			}
		}
		if n%2 == 0 { // draining yields everything, greatest first
			want := ""
			for i := len(m) - 1; i >= 0 && h.Len() > 0; i-- {
				want += fmt.Sprintf("Some(%d)", m[i])
			}
			if h.Len() > 0 {
				r.try(desc+" drain", func() string {
					got := ""
					for !h.IsEmpty() {
						got += vo(h.Pop())
					}
					return vexpect("drained", got, want)
				})
			}
		}
	}
})
