package gost

import "fmt"

// vring builds a ring buffer with the given contents whose head sits at any position.
func vring[T any](xs []T, spare, head int) VecDeque[T] {
	c := len(xs) + spare
	if c < 1 {
		c = 1
	}
	head %= c
	d := VecDeque[T]{buffer: make([]T, c), len: USize(len(xs)), head: USize(head)}
	for i, x := range xs {
		d.buffer[(head+i)%c] = x
	}
	return d
}
func vdq[T any](d VecDeque[T]) []T {
	out := []T{}
	for i := USize(0); i < d.len; i++ {
		out = append(out, d.buffer[(d.head+i)%USize(len(d.buffer))])
	}
	return out
}

var _ = search("P11", "deque against a slice model", func(r *vrun) {
	for n := 0; !r.done() && n < 60000; n++ {
		g := r.rng
		m := vslice(g, 7, 4)
		v := vring(m, g.Intn(3), g.Intn(10))
		if n%7 == 0 {
			m, v = nil, VecDequeNew[I32]()
		} else if n%7 == 1 {
			m, v = nil, VecDequeWithCapacity[I32](USize(g.Intn(4)))
		} else if n%7 == 2 {
			m = make([]I32, g.Intn(4))
			v = VecDequeWithLen[I32](USize(len(m)))
		}
		desc := fmt.Sprintf("VecDeque%v cap %d head %d", m, len(v.buffer), v.head)
		steps := 1 + g.Intn(12)
		for s := 0; s < steps; s++ {
			op := g.Intn(22)
			if g.Intn(2) == 0 {
				op = g.Intn(4)
			}
			x := I32(g.Intn(5))
			var ret, want string
			m0 := append([]I32{}, m...)
			panics := false
			var run func()
			switch op {
			case 0:
				desc += fmt.Sprintf(" PushBack(%d)", x)
				run = func() { v.PushBack(x) }
				m = append(m0, x)
			case 1:
				desc += fmt.Sprintf(" PushFront(%d)", x)
				run = func() { v.PushFront(x) }
				m = vins(m0, 0, x)
			case 2, 3:
				i := 0
				if op == 2 {
					desc += " PopFront"
					run = func() { ret = vo(v.PopFront()) }
				} else {
					desc += " PopBack"
					i = len(m) - 1
					run = func() { ret = vo(v.PopBack()) }
				}
				if want = "None"; len(m) > 0 {
					want = fmt.Sprintf("Some(%d)", m[i])
					m = append(append([]I32{}, m0[:i]...), m0[i+1:]...)
				}
			case 4:
				o := vslice(g, 5, 3)
				ov := vring(o, g.Intn(3), g.Intn(5))
				desc += fmt.Sprintf(" Append(%v)", o)
				run = func() { v.Append(&ov); ret = fmt.Sprint(ov.Len()) + " " + vo(ov.Get(0)) }
				want = "0 None"
				m = append(m0, o...)
			case 5:
				desc += " Retain(odd)"
				run = func() { v.Retain(func(e I32) Bool { return e%2 == 1 }) }
				m = nil
				for _, e := range m0 {
					if e%2 == 1 {
						m = append(m, e)
					}
				}
			case 6:
				desc += " Dedup"
				run = func() { v.Dedup(func(e I32) any { return e }) }
				m = nil
				for i, e := range m0 {
					if i == 0 || e != m0[i-1] {
						m = append(m, e)
					}
				}
			case 7:
				i := g.Intn(len(m) + 2)
				desc += fmt.Sprintf(" Get(%d)", i)
				run = func() { ret = vo(v.Get(USize(i))) }
				if want = "None"; i < len(m) {
					want = fmt.Sprintf("Some(%d)", m[i])
				}
			case 8:
				i := g.Intn(len(m) + 2)
				desc += fmt.Sprintf(" Set(%d,%d)", i, x)
				run = func() { ret = vo(v.Set(USize(i), x)) }
				if want = fmt.Sprintf("Some(%d)", x); i < len(m) {
					want = "None"
					m = m0
					m[i] = x
				}
			case 9, 16, 17:
				if len(m) == 0 {
					continue
				}
				i, j := g.Intn(len(m)), g.Intn(len(m))
				if op == 9 {
					desc += fmt.Sprintf(" Swap(%d,%d)", i, j)
					run = func() { v.Swap(USize(i), USize(j)) }
					m = m0
					m[i], m[j] = m[j], m[i]
				} else if op == 16 {
					desc += fmt.Sprintf(" GetUnchecked(%d)", i)
					run = func() { ret = fmt.Sprint(v.GetUnchecked(USize(i))) }
					want = fmt.Sprint(m[i])
				} else {
					desc += fmt.Sprintf(" SetUnchecked(%d,%d)", i, x)
					run = func() { v.SetUnchecked(USize(i), x) }
					m = m0
					m[i] = x
				}
			case 10:
				desc += " Front/Back"
				run = func() { ret = vo(v.Front()) + vo(v.Back()) }
				if want = "NoneNone"; len(m) > 0 {
					want = fmt.Sprintf("Some(%d)Some(%d)", m[0], m[len(m)-1])
				}
			case 11:
				desc += fmt.Sprintf(" Contains(%d)", x)
				run = func() { ret = fmt.Sprint(v.Contains(x)) }
				w := false
				for _, e := range m {
					w = w || e == x
				}
				want = fmt.Sprint(w)
			case 12:
				desc += fmt.Sprintf(" Fill(%d)", x)
				run = func() { v.Fill(x) }
				m = m0
				for i := range m {
					m[i] = x
				}
			case 13:
				k := I32(0)
				desc += " FillWith(counter)"
				run = func() { v.FillWith(func() I32 { k++; return k }); ret = fmt.Sprint(k) }
				m = m0
				for i := range m {
					m[i] = I32(i + 1)
				}
				want = fmt.Sprint(len(m))
			case 14:
				desc += fmt.Sprintf(" Reserve(%d)", x)
				run = func() { v.Reserve(USize(x)); ret = fmt.Sprint(int(v.Capacity()) >= len(m0)+int(x)) }
				want = "true"
			case 15:
				desc += " Clear"
				run = func() { v.Clear() }
				m = nil
			case 18:
				desc += " Len/IsEmpty/AsRef"
				run = func() { ret = fmt.Sprint(v.Len(), v.IsEmpty(), vdq(*v.AsRef())) }
				want = fmt.Sprint(len(m), len(m) == 0, m0)
			case 19, 20, 21:
				desc += " AsSlice"
				run = func() { ret = fmt.Sprint(v.AsSlice()) }
				want = fmt.Sprint(m0)
			}
			r.try(desc, func() string {
				if p := vpanics(run); p != panics {
					return vexpect("panics", p, panics)
				}
				if ret != want {
					return vexpect("result", ret, want)
				}
				if v.head >= USize(len(v.buffer)) || v.len > USize(len(v.buffer)) {
					return fmt.Sprintf("broken ring: head %d len %d cap %d", v.head, v.len, len(v.buffer))
				}
				return vexpect("contents", vdq(v), append([]I32{}, m...))
			})
		}
	}
})

var _ = search("P18", "deque search and sort", func(r *vrun) {
	for n := 0; !r.done() && n < 60000; n++ {
		xs := vpts(r.rng, 40, 1+r.rng.Intn(12))
		spare, head := r.rng.Intn(3), r.rng.Intn(50)
		mk := func() VecDeque[vPt] { return vring(xs, spare, head) }
		by := func(a, b vPt) Ordering { return a.Cmp(b) }
		for i, f := range []func(v *VecDeque[vPt]){func(v *VecDeque[vPt]) { v.Sort() }, func(v *VecDeque[vPt]) { v.SortBy(by) }, func(v *VecDeque[vPt]) { v.SortUnstable() }, func(v *VecDeque[vPt]) { v.SortUnstableBy(by) }} {
			v := mk()
			r.try(fmt.Sprintf("VecDeque sort #%d of %v cap %d head %d", i, xs, len(v.buffer), v.head), func() string { f(&v); return vsorted(xs, vdq(v), i < 2) })
		}
		v := mk()
		v.Sort()
		ys := vdq(v)
		v = vring(ys, spare, head)
		k := r.rng.Intn(14) - 1
		r.try(fmt.Sprintf("BinarySearch(%d) in VecDeque%v", k, ys), func() string { return vfind(ys, k, v.BinarySearch(vPt{k, 0})) })
		r.try(fmt.Sprintf("BinarySearchBy(%d) in VecDeque%v", k, ys), func() string {
			return vfind(ys, k, v.BinarySearchBy(func(p vPt) Ordering { return p.Cmp(vPt{k, 0}) }))
		})
	}
})

var _ = search("P22", "VecDeque clone and equality", func(r *vrun) {
	for n := 0; !r.done() && n < 30000; n++ {
		xs, ys := vpts(r.rng, 4, 3), vpts(r.rng, 4, 3)
		v, w := vring(xs, r.rng.Intn(3), r.rng.Intn(6)), vring(ys, r.rng.Intn(3), r.rng.Intn(6))
		r.try(fmt.Sprint("VecDeque.Eq ", xs, ys, v.head, w.head), func() string {
			e := len(xs) == len(ys)
			for i := 0; e && i < len(xs); i++ {
				e = xs[i].K == ys[i].K
			}
			return vexpect("", v.Eq(w), e)
		})
		r.try(fmt.Sprint("VecDeque.Clone ", xs, v.head), func() string {
			want := []vPt{}
			for _, x := range xs {
				want = append(want, x.Clone())
			}
			c := v.Clone()
			if s := vexpect("clone", vdq(*c), want); s != "" {
				return s
			}
			for i := range c.buffer {
				c.buffer[i].K = 99
			}
			return vexpect("original after changing the clone", vdq(v), append([]vPt{}, xs...))
		})
	}
})
