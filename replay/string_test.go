package gost

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// texts with multi-byte, combining, invalid and boundary characters
func vtext(r *vrun) string {
	parts := []string{"a", "b", "ab", "A", " ", "\t", "\n", "\u0085", "\u2003", "é", "ß", "İ", "ſ", "€", "\U0001F600", "\U0010FFFF", "\ufffd", "\xff", "\xe2\x82", "\x80", "{", "}", "{}", "{{", "}}", "0", "7", "+", "-", "\x00"}
	n := r.rng.Intn(7)
	s := ""
	for i := 0; i < n; i++ {
		s += parts[r.rng.Intn(len(parts))]
	}
	return s
}
func vrunes(s string) []rune {
	out := []rune{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		out = append(out, c)
		s = s[n:]
	}
	return out
}

var _ = search("P20", "strings against bytes, runes and naive search", func(r *vrun) {
	for !r.done() {
		s, t, u := vtext(r), vtext(r), vtext(r)
		if r.rng.Intn(2) == 0 && len(s) > 1 {
			i := r.rng.Intn(len(s))
			t = s[i : i+r.rng.Intn(len(s)-i+1)]
		}
		r.try(fmt.Sprintf("String(%q) with %q", s, t), func() string {
			g := String(s)
			if e := vexpect("Len", int(g.Len()), len(s)); e != "" {
				return e
			}
			if e := vexpect("IsEmpty", g.IsEmpty(), len(s) == 0); e != "" {
				return e
			}
			first := -1
			for i := 0; i+len(t) <= len(s) && first < 0; i++ {
				if s[i:i+len(t)] == t {
					first = i
				}
			}
			if e := vexpect("Contains", bool(g.Contains(String(t))), first >= 0); e != "" {
				return e
			}
			f := g.Find(String(t))
			if bool(f.IsSome()) != (first >= 0) || first >= 0 && int(f.Unwrap()) != first {
				return fmt.Sprintf("Find: want %d", first)
			}
			var bs []U8
			for i := 0; i < len(s); i++ {
				bs = append(bs, U8(s[i]))
			}
			b := g.IntoBytes()
			if e := vexpect("IntoBytes", fmt.Sprint(b.data), fmt.Sprint(bs)); e != "" {
				return e
			}
			if e := vexpect("StringFromUTF8", string(StringFromUTF8(b)), s); e != "" {
				return e
			}
			rs := vrunes(s)
			var cs []rune
			for _, c := range g.Chars().data {
				cs = append(cs, rune(c))
			}
			if e := vexpect("Chars", fmt.Sprint(cs), fmt.Sprint(rs)); e != "" {
				return e
			}
			p := String(s)
			last := p.Pop()
			if bool(last.IsSome()) != (len(s) > 0) {
				return "Pop: wrong case"
			}
			if len(s) > 0 {
				k := 0
				for i := 0; i+1 < len(rs); i++ {
					_, n := utf8.DecodeRuneInString(s[k:])
					k += n
				}
				if e := vexpect("Pop", rune(last.Unwrap()), rs[len(rs)-1]); e != "" {
					return e
				}
				if e := vexpect("Pop leaves", string(p), s[:k]); e != "" {
					return e
				}
				c := rs[r.rng.Intn(len(rs))]
				q := String(s)
				w := q.Push(Char(c))
				if string(w) != s+string(c) || string(q) != s+string(c) {
					return fmt.Sprintf("Push(%q) gives %q and %q", c, q, w)
				}
			}
			if e := vexpect("Replace", string(g.Replace(String(t), String(u))), strings.ReplaceAll(s, t, u)); e != "" {
				return e
			}
			if e := vexpect("Trim", string(g.Trim()), strings.TrimSpace(s)); e != "" {
				return e
			}
			if e := vexpect("ToLowercase", string(g.ToLowercase()), strings.ToLower(s)); e != "" {
				return e
			}
			if e := vexpect("ToUppercase", string(g.ToUppercase()), strings.ToUpper(s)); e != "" {
				return e
			}
			n := r.rng.Intn(4)
			rep := ""
			for i := 0; i < n; i++ {
				rep += s
			}
			if e := vexpect("Repeat", string(g.Repeat(USize(n))), rep); e != "" {
				return e
			}
			var parts []string
			for _, x := range g.Split(String(t)).data {
				parts = append(parts, string(x))
			}
			return vexpect("Split", fmt.Sprintf("%q", parts), fmt.Sprintf("%q", strings.Split(s, t)))
		})
		// UTF-16
		units := []uint16{0, 'a', 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff}
		var w []uint16
		for i := r.rng.Intn(5); i > 0; i-- {
			w = append(w, units[r.rng.Intn(len(units))])
			if r.rng.Intn(3) == 0 {
				w = append(w, 0xd83d, 0xde00)
			}
		}
		r.try(fmt.Sprintf("StringFromUTF16(%x)", w), func() string {
			v := VecNew[U16]()
			valid := true
			for i := 0; i < len(w); i++ {
				v.Push(U16(w[i]))
			}
			for i := 0; i < len(w); i++ {
				if utf16.IsSurrogate(rune(w[i])) {
					if w[i] < 0xdc00 && i+1 < len(w) && w[i+1] >= 0xdc00 && w[i+1] < 0xe000 {
						i++
					} else {
						valid = false
					}
				}
			}
			res := StringFromUTF16(v)
			if bool(res.IsOk()) != valid || bool(res.IsErr()) == valid {
				return fmt.Sprintf("Ok is %v, the units are valid: %v", res.IsOk(), valid)
			}
			if valid {
				return vexpect("text", string(res.Unwrap()), string(utf16.Decode(w)))
			}
			return ""
		})
		// numbers
		num := new(big.Int).Rsh(new(big.Int).SetUint64(r.rng.Uint64()), uint(r.rng.Intn(64)))
		switch r.rng.Intn(5) {
		case 0:
			num = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(62+r.rng.Intn(3))), big.NewInt(int64(r.rng.Intn(3)-1)))
		case 1:
			num.Mul(num, big.NewInt(int64(r.rng.Intn(20))))
		}
		txt := num.String()
		sign := []string{"", "", "-", "+", "--", "+-", " "}[r.rng.Intn(7)]
		if r.rng.Intn(8) == 0 {
			txt = []string{"", "x", "1x", "0x10", "1_0", "007", "1.5"}[r.rng.Intn(7)]
		}
		txt = sign + txt
		r.try(fmt.Sprintf("parsing %q", txt), func() string {
			ok := len(txt) > len(sign) && len(sign) <= 1 && sign != " "
			for _, c := range txt[len(sign):] {
				ok = ok && c >= '0' && c <= '9'
			}
			val := new(big.Int)
			if ok {
				val.SetString(txt[len(sign):], 10)
				if sign == "-" {
					val.Neg(val)
				}
			}
			i := String(txt).ParseI64()
			if e := vexpect("ParseI64 ok", bool(i.IsOk()), ok && val.IsInt64()); e != "" {
				return e
			}
			if bool(i.IsOk()) {
				if e := vexpect("ParseI64", int64(i.Unwrap()), val.Int64()); e != "" {
					return e
				}
			}
			u := String(txt).ParseU64()
			if e := vexpect("ParseU64 ok", bool(u.IsOk()), ok && sign != "-" && val.IsUint64()); e != "" {
				return e
			}
			if bool(u.IsOk()) {
				return vexpect("ParseU64", uint64(u.Unwrap()), val.Uint64())
			}
			return ""
		})
	}
})
