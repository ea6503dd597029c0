package gost

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
)

// the meaning of a format, or !ok when a brace is not part of "{}", "{{" or "}}"
func vformat(f string, disp []string) (out string, args int, ok bool) {
	rs := []rune(f)
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		if c != '{' && c != '}' {
			out += string(c)
			continue
		}
		if i+1 == len(rs) {
			return "", 0, false
		}
		d := rs[i+1]
		switch {
		case c == '{' && d == '}':
			if args == len(disp) {
				return "", 0, false
			}
			out += disp[args]
			args++
		case c == d:
			out += string(c)
		default:
			return "", 0, false
		}
		i++
	}
	return out, args, true
}

var _ = search("P21", "formatting, display texts and assertions", func(r *vrun) {
	for !r.done() {
		x := r.rng.Uint64() >> uint(r.rng.Intn(64))
		if r.rng.Intn(4) == 0 {
			x = 1<<63 - 2 + uint64(r.rng.Intn(4))
		}
		params := []any{}
		disp := []string{}
		for i := r.rng.Intn(4); i > 0; i-- {
			switch r.rng.Intn(4) {
			case 0:
				params = append(params, I64(int64(x)))
				disp = append(disp, strconv.FormatInt(int64(x), 10))
			case 1:
				params = append(params, USize(x))
				disp = append(disp, strconv.FormatUint(x, 10))
			case 2:
				s := []string{"", "a", "{}", "{", "}", "é"}[r.rng.Intn(6)]
				params = append(params, String(s))
				disp = append(disp, s)
			default:
				params = append(params, Some(U8(x)))
				disp = append(disp, fmt.Sprintf("Some(%d)", uint8(x)))
			}
		}
		f := ""
		for i := r.rng.Intn(7); i > 0; i-- {
			f += []string{"a", "é", "{}", "{}", "{{", "}}", "x{", "}", " "}[r.rng.Intn(9)]
		}
		if want, _, ok := vformat(f, disp); ok {
			r.try(fmt.Sprintf("Format(%q, %q)", f, disp), func() string {
				return vexpect("Format", string(Format(String(f), params...)), want)
			})
		}
		r.try(fmt.Sprintf("decimal texts of %#x", x), func() string {
			for _, c := range []struct {
				n    string
				t, d String
				v    *big.Int
			}{
				{"I8", I8(x).ToString(), I8(x).Display(), big.NewInt(int64(int8(x)))},
				{"I16", I16(x).ToString(), I16(x).Display(), big.NewInt(int64(int16(x)))},
				{"I32", I32(x).ToString(), I32(x).Display(), big.NewInt(int64(int32(x)))},
				{"I64", I64(x).ToString(), I64(x).Display(), big.NewInt(int64(x))},
				{"ISize", ISize(x).ToString(), ISize(x).Display(), big.NewInt(int64(x))},
				{"U8", U8(x).ToString(), U8(x).Display(), big.NewInt(int64(uint8(x)))},
				{"U16", U16(x).ToString(), U16(x).Display(), big.NewInt(int64(uint16(x)))},
				{"U32", U32(x).ToString(), U32(x).Display(), big.NewInt(int64(uint32(x)))},
				{"U64", U64(x).ToString(), U64(x).Display(), new(big.Int).SetUint64(x)},
				{"USize", USize(x).ToString(), USize(x).Display(), new(big.Int).SetUint64(x)},
			} {
				if string(c.t) != c.v.String() || string(c.d) != c.v.String() {
					return fmt.Sprintf("%s: ToString %q, Display %q, want %s", c.n, c.t, c.d, c.v)
				}
			}
			return ""
		})
		n := r.rng.Intn(5)
		v, d, l := VecNew[I32](), VecDequeNew[I32](), LinkedListNew[I32]()
		txt := ""
		for i := 0; i < n; i++ {
			e := I32(r.rng.Intn(100) - 50)
			if i > 0 {
				txt += ", "
			}
			txt += strconv.Itoa(int(e))
			v.Push(e)
			if r.rng.Intn(2) == 0 {
				d.PushFront(0)
				d.PopFront()
			}
			d.PushBack(e)
			l.PushBack(e)
		}
		r.try(fmt.Sprintf("display of the sequence %s", txt), func() string {
			if e := vexpect("Vec", string(v.Display()), "Vec["+txt+"]"); e != "" {
				return e
			}
			if e := vexpect("VecDeque", string(d.Display()), "VecDeque["+txt+"]"); e != "" {
				return e
			}
			if e := vexpect("LinkedList", string(l.Display()), "LinkedList["+txt+"]"); e != "" {
				return e
			}
			if e := vexpect("Some", string(Some(I64(int64(x))).Display()), fmt.Sprintf("Some(%d)", int64(x))); e != "" {
				return e
			}
			if e := vexpect("None", string(None[I64]().Display()), "None"); e != "" {
				return e
			}
			if e := vexpect("Bool", string(Bool(x%2 == 0).Display())+string(Bool(x%2 == 0).ToString()), fmt.Sprint(x%2 == 0, x%2 == 0)[:len(fmt.Sprint(x%2 == 0))]+fmt.Sprint(x%2 == 0)); e != "" {
				return e
			}
			if e := vexpect("Err", string(Err[I64](errors.New("no")).Display()), "no"); e != "" {
				return e
			}
			return vexpect("Ok", string(Ok(I64(int64(x))).Display()), fmt.Sprintf("Ok(%d)", int64(x)))
		})
		a, b := I32(r.rng.Intn(3)), I32(r.rng.Intn(3))
		args := []any{}
		switch r.rng.Intn(4) {
		case 0:
			args = append(args, String("msg"))
		case 1:
			args = append(args, "msg")
		case 2:
			args = append(args, I32(1), I32(2))
		}
		r.try(fmt.Sprintf("assertions on %d and %d with %v", a, b, args), func() string {
			for _, c := range []struct {
				n    string
				f    func()
				want bool
			}{
				{"Assert", func() { Assert(a == b, args...) }, a != b},
				{"AssertEq", func() { AssertEq(a, b, args...) }, a != b},
				{"AssertNe", func() { AssertNe(a, b, args...) }, a == b},
				{"Panic", func() { Panic("p {}", a) }, true},
				{"Unimplemented", func() { Unimplemented() }, true},
				{"Unreachable", func() { Unreachable("u") }, true},
				{"Todo", func() { Todo() }, true},
			} {
				if vpanics(c.f) != c.want {
					return fmt.Sprintf("%s: panic expected %v", c.n, c.want)
				}
			}
			return ""
		})
	}
})
