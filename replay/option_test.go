package gost

import (
	"errors"
	"fmt"
	"strings"
)

// Option, Result and if-else laws over a small domain, with counted closures.
func vo(o Option[I32]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprintf("Some(%d)", o.Unwrap())
}
func voa(o Option[any]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprintf("Some(%v)", o.Unwrap())
}

type vErr struct{ s string }

func (e vErr) Error() string { return e.s }

var _ = search("P08", "option laws", func(r *vrun) {
	var opts = []Option[I32]{None[I32](), Some(I32(0)), Some(I32(3)), Some(I32(-4))}
	pred := func(x I32) Bool { return x > 0 }
	inc := func(x I32) I32 { return x + 10 }
	for _, o := range opts {
		o := o
		some := o.value != nil
		var v I32
		if some {
			v = *o.value
		}
		ck := func(what string, f func() string) { r.try(what+" of "+vo(o), f) }
		pick := func(a, b any) any {
			if some {
				return a
			}
			return b
		}
		ck("Unwrap", func() string {
			if p := vpanics(func() { o.Unwrap() }); p == some {
				return vexpect("panics", p, !some)
			}
			if p := vpanics(func() { o.Expect("x") }); p == some {
				return vexpect("Expect panics", p, !some)
			}
			if some && (o.Unwrap() != v || o.Expect("x") != v) {
				return "wrong value"
			}
			return ""
		})
		ck("IsSome/IsNone/IsSomeAnd", func() string {
			return vexpect("", vj(o.IsSome(), o.IsNone(), o.IsSomeAnd(pred)), vj(some, !some, some && v > 0))
		})
		ck("UnwrapOr/Map/MapOr", func() string {
			return vexpect("", vj(o.UnwrapOr(7), vo(o.Map(inc)), o.MapOr(8, inc)), pick(vj(v, " ", vo(Some(v+10)), " ", v+10), vj(7, " None ", 8)))
		})
		n := 0
		ck("UnwrapOrElse/MapOrElse/OrElse", func() string {
			a := o.UnwrapOrElse(func() I32 { n++; return 70 })
			b := o.MapOrElse(func() I32 { n++; return 71 }, inc)
			c := o.OrElse(func() Option[I32] { n++; return Some(I32(72)) })
			return vexpect("", vj(a, b, vo(c), n), pick(vj(v, v+10, vo(o), 0), vj(70, 71, "Some(72)", 3)))
		})
		for _, q := range opts {
			q := q
			ck("Or/Xor/Eq with "+vo(q), func() string {
				qs := q.value != nil
				x := "None"
				if some != qs {
					x = vo(o)
					if qs {
						x = vo(q)
					}
				}
				or := vo(q)
				if some {
					or = vo(o)
				}
				eq := some == qs && (!some || *q.value == v)
				return vexpect("", vj(vo(o.Or(q)), vo(o.Xor(q)), o.Eq(q)), vj(or, x, eq))
			})
		}
		for _, q := range []Option[any]{None[any](), Some(any("w"))} {
			q := q
			ck("And/AndThen with "+voa(q), func() string {
				return vexpect("", voa(o.And(q))+voa(o.AndThen(func(I32) Option[any] { return q })), pick(voa(q)+voa(q), "NoneNone"))
			})
		}
		ck("Filter", func() string {
			if some && v > 0 {
				return vexpect("", vo(o.Filter(pred)), vo(o))
			}
			return vexpect("", vo(o.Filter(pred)), "None")
		})
		fresh := func() Option[I32] {
			if some {
				return Some(v)
			}
			return None[I32]()
		}
		ck("Insert", func() string {
			c := fresh()
			p := c.Insert(9)
			s := vo(c)
			*p = 11
			return vexpect("", s+vo(c), "Some(9)Some(11)")
		})
		ck("GetOrInsert", func() string {
			c := fresh()
			p := c.GetOrInsert(9)
			s := vo(c)
			*p = 11
			return vexpect("", s+vo(c), vj(pick(vo(o), "Some(9)"))+"Some(11)")
		})
		ck("GetOrInsertWith", func() string {
			c := fresh()
			n := 0
			p := c.GetOrInsertWith(func() I32 { n++; return 9 })
			s := vo(c)
			*p = 11
			return vexpect("", vj(s, vo(c), n), vj(pick(vo(o), "Some(9)"), "Some(11)", pick(0, 1)))
		})
		ck("Take", func() string { c := fresh(); t := c.Take(); return vexpect("", vo(t)+vo(c), vo(o)+"None") })
		ck("Replace", func() string { c := fresh(); t := c.Replace(5); return vexpect("", vo(t)+vo(c), vo(o)+"Some(5)") })
		ck("AsRef/Clone", func() string { c := fresh(); return vexpect("", vo(*c.AsRef())+vo(c.Clone()), vo(o)+vo(o)) })
	}
})

func vres(x Result[I32]) string {
	if x.ok != nil {
		if x.err != nil {
			return "Both"
		}
		return fmt.Sprintf("Ok(%d)", *x.ok)
	}
	return fmt.Sprintf("Err(%v)", x.err)
}

var _ = search("P09", "result laws", func(r *vrun) {
	rs := []Result[I32]{Ok(I32(0)), Ok(I32(4)), Ok(I32(-5)), Err[I32](vErr{"a"}), Err[I32](vErr{"b"}), Err[I32](errors.New("c"))}
	pred := func(x I32) Bool { return x > 0 }
	ep := func(e error) Bool { return e.Error() == "a" }
	inc := func(x I32) I32 { return x + 10 }
	me := func(e error) error { return vErr{"m" + e.Error()} }
	for _, o := range rs {
		o := o
		ok := o.ok != nil
		var v I32
		if ok {
			v = *o.ok
		}
		ck := func(what string, f func() string) { r.try(what+" of "+vres(o), f) }
		pick := func(a, b any) any {
			if ok {
				return a
			}
			return b
		}
		ck("Unwrap/Expect/UnwrapErr/ExpectErr", func() string {
			s := vj(vpanics(func() { o.Unwrap() }), vpanics(func() { o.Expect("x") }), vpanics(func() { o.UnwrapErr() }), vpanics(func() { o.ExpectErr("x") }))
			if m := vexpect("panics", s, vj(!ok, !ok, ok, ok)); m != "" {
				return m
			}
			if ok && (o.Unwrap() != v || o.Expect("") != v) || !ok && (o.UnwrapErr() != o.err || o.ExpectErr("") != o.err) {
				return "wrong value"
			}
			return ""
		})
		ck("predicates", func() string {
			return vexpect("", vj(o.IsOk(), o.IsErr(), o.IsOkAnd(pred), o.IsErrAnd(ep)), vj(ok, !ok, ok && v > 0, !ok && o.err.Error() == "a"))
		})
		ck("Ok/Err", func() string {
			a, b := o.Ok(), o.Err()
			if bool(a.IsSome()) != ok || bool(b.IsSome()) == ok || ok && a.Unwrap() != v || !ok && b.Unwrap() != o.err {
				return "wrong option"
			}
			return ""
		})
		ck("Map/MapOr/MapErr", func() string {
			return vexpect("", vj(vres(o.Map(inc)), o.MapOr(9, inc), vres(o.MapErr(me))), pick(vj(vres(Ok(v+10)), v+10, vres(o)), vj(vres(o), 9, fmt.Sprintf("Err(m%v)", o.err))))
		})
		ck("MapOrElse/UnwrapOr/UnwrapOrElse", func() string {
			n := 0
			return vexpect("", vj(o.MapOrElse(func() I32 { n++; return 71 }, inc), o.UnwrapOr(6), o.UnwrapOrElse(func() I32 { n++; return 72 }), n), pick(vj(v+10, v, v, 0), vj(71, 6, 72, 2)))
		})
		for _, q := range rs {
			q := q
			ck("And/AndThen/Or/OrElse/Eq with "+vres(q), func() string {
				eq := ok == (q.ok != nil)
				if ok && eq {
					eq = v == *q.ok
				} else if eq {
					eq = o.err == q.err
				}
				return vexpect("", vres(o.And(q))+vres(o.AndThen(func(I32) Result[I32] { return q }))+vres(o.Or(q))+vres(o.OrElse(func(error) Result[I32] { return q }))+" "+vj(o.Eq(q)),
					vj(pick(vres(q)+vres(q)+vres(o)+vres(o), vres(o)+vres(o)+vres(q)+vres(q)), eq))
			})
		}
		ck("AsRef/Clone", func() string { return vexpect("", vres(*o.AsRef())+vres(o.Clone()), vres(o)+vres(o)) })
	}
})

var _ = search("P24", "if-else chains", func(r *vrun) {
	for bits := 0; bits < 16; bits++ {
		c := func(i int) Bool { return bits>>i&1 == 1 }
		for n := 0; n <= 3; n++ {
			n := n
			want := 99
			for i := 0; i <= n; i++ {
				if c(i) {
					want = i
					break
				}
			}
			r.try(fmt.Sprintf("conditions %04b (lowest first), %d ElseIf", bits, n), func() string {
				var log []int
				br := func(i int) func() int { return func() int { log = append(log, i); return i } }
				x := If(c(0), br(0))
				for i := 1; i <= n; i++ {
					x = x.ElseIf(c(i), br(i))
				}
				got := x.Else(br(99))
				return vexpect("value and branches run", vj(got, log), vj(want, []int{want}))
			})
		}
	}
})

// vj joins with spaces, whatever the operand types.
func vj(a ...any) string { return strings.Join(strings.Fields(fmt.Sprintln(a...)), " ") }
