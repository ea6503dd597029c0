package gost

import "fmt"

// vls reads a list forwards, checking the backward links.
func vls(l *LinkedList[I32]) string {
	s := []int{}
	var prev *LinkedListNode[I32]
	for p := l.head; p != nil && len(s) < 100000; p = p.next {
		if p.prev != prev {
			return fmt.Sprintf("broken prev link at %d", len(s))
		}
		prev = p
		s = append(s, int(p.value))
	}
	if l.tail != prev {
		return "broken tail"
	}
	return fmt.Sprint(s, len(s) == int(l.Len()))
}

func vlist(xs []int) LinkedList[I32] {
	l := LinkedListNew[I32]()
	for _, x := range xs {
		l.PushBack(I32(x))
	}
	return l
}

func vlops(r *vrun, clones bool) {
	for n := 0; !r.done() && n < 60000; n++ {
		g := r.rng
		l := LinkedListNew[I32]()
		m := []int{}
		desc := "LinkedList"
		steps := 1 + g.Intn(16)
		for s := 0; s < steps && !r.done(); s++ {
			var ret, want string
			var run func()
			op := g.Intn(12)
			if clones && g.Intn(3) == 0 {
				op = 20 + g.Intn(2)
			}
			opt := func(b bool, i int) string {
				if !b {
					return "None"
				}
				return fmt.Sprintf("Some(%d)", m[i])
			}
			switch op {
			case 0, 1, 2:
				x := g.Intn(9)
				desc += fmt.Sprintf(" PushBack(%d)", x)
				run = func() { l.PushBack(I32(x)) }
				m = append(m, x)
			case 3, 4:
				x := g.Intn(9)
				desc += fmt.Sprintf(" PushFront(%d)", x)
				run = func() { l.PushFront(I32(x)) }
				m = append([]int{x}, m...)
			case 5:
				desc += " PopBack"
				run = func() { ret = vo(l.PopBack()) }
				want = opt(len(m) > 0, len(m)-1)
				if len(m) > 0 {
					m = m[:len(m)-1]
				}
			case 6:
				desc += " PopFront"
				run = func() { ret = vo(l.PopFront()) }
				want = opt(len(m) > 0, 0)
				if len(m) > 0 {
					m = m[1:]
				}
			case 7:
				desc += " Front/Back"
				run = func() {
					for _, o := range []Option[*I32]{l.Front(), l.Back()} {
						if o.IsNone() {
							ret += "None"
						} else {
							ret += fmt.Sprintf("Some(%d)", *o.Unwrap())
						}
					}
				}
				want = opt(len(m) > 0, 0) + opt(len(m) > 0, len(m)-1)
			case 8:
				if g.Intn(4) == 0 {
					desc += " Clear"
					run = func() { l.Clear() }
					m = []int{}
					break
				}
				fallthrough
			case 9:
				o := []int{}
				for k := g.Intn(4); k > 0; k-- {
					o = append(o, g.Intn(9))
				}
				desc += fmt.Sprintf(" Append(%v)", o)
				run = func() {
					ol := vlist(o)
					l.Append(&ol)
					ret = vls(&ol)
					ol.PushBack(77)
				}
				want = "[] true"
				m = append(append([]int{}, m...), o...)
			case 10:
				desc += " Len/IsEmpty/AsRef"
				run = func() { ret = vj(l.Len(), l.IsEmpty(), *l.AsRef() == l) }
				want = vj(len(m), len(m) == 0, true)
			case 11:
				desc += " iterate"
				run = func() { ret = fmt.Sprint(vdrain(l.IntoIter())) }
				want = fmt.Sprint(m)
			case 20:
				desc += " Clone"
				run = func() {
					c := l.Clone()
					ret = vls(&c)
					c.PushBack(5)
					c.PushFront(6)
					for p := c.head; p != nil; p = p.next {
						p.value += 100
					}
				}
				want = vj(m, true)
			case 21:
				o := append([]int{}, m...)
				eq := true
				switch g.Intn(4) {
				case 0:
					if len(o) > 0 {
						o[g.Intn(len(o))] += 50
						eq = false
					}
				case 1:
					o = append(o, 1)
					eq = false
				case 2:
					if len(o) > 0 {
						o = o[:len(o)-1]
						eq = false
					}
				}
				desc += fmt.Sprintf(" Eq(%v)", o)
				run = func() { ret = fmt.Sprint(l.Eq(vlist(o)), func() Bool { x := vlist(o); return x.Eq(l) }()) }
				want = fmt.Sprint(eq, eq)
			}
			r.try(desc, func() string {
				run()
				if e := vexpect("result", ret, want); e != "" {
					return e
				}
				return vexpect("contents", vls(&l), vj(m, true))
			})
		}
	}
}

var _ = search("P12", "linked list against a slice", func(r *vrun) { vlops(r, false) })
var _ = search("P22", "linked list clones and equality", func(r *vrun) { vlops(r, true) })
