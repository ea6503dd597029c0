package gost

import (
	"fmt"
	"math/big"
)

// Integer operations against arbitrary-precision arithmetic.
type vint interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func vbig[T vint](x T) *big.Int {
	b, _ := new(big.Int).SetString(fmt.Sprintf("%d", x), 10)
	return b
}

type vrange struct {
	lo, hi *big.Int
	bits   uint
	signed bool
}

func vwrap(g vrange, x *big.Int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), g.bits)
	y := new(big.Int).Mod(x, m)
	if y.Cmp(g.hi) > 0 {
		y.Sub(y, m)
	}
	return y
}
func vclamp(g vrange, x *big.Int) *big.Int {
	if x.Cmp(g.lo) < 0 {
		return g.lo
	}
	if x.Cmp(g.hi) > 0 {
		return g.hi
	}
	return x
}
func vopt[T vint](o Option[T]) string {
	if o.IsNone() {
		return "None"
	}
	return fmt.Sprintf("%d", o.Unwrap())
}
func vchk(g vrange, x *big.Int) string {
	if x.Cmp(g.lo) < 0 || x.Cmp(g.hi) > 0 {
		return "None"
	}
	return x.String()
}
func vrangeOf(bits uint, signed bool) vrange {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, bits-1)
		return vrange{new(big.Int).Neg(h), new(big.Int).Sub(h, one), bits, true}
	}
	return vrange{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), bits, false}
}

// interesting values of a type: everything for 8 bits, else the boundary plus random ones
func vvals[T vint](r *vrun, g vrange) []T {
	var out []T
	if g.bits == 8 {
		for i := 0; i < 256; i++ {
			out = append(out, T(i))
		}
		return out
	}
	for i := -3; i <= 11; i++ {
		out = append(out, T(i))
	}
	for k := uint(1); k < g.bits; k++ {
		if k%4 == 0 || k%8 == 7 || k == g.bits/2-1 {
			for d := -2; d <= 2; d++ {
				out = append(out, T(uint64(1)<<k)+T(d), -(T(uint64(1)<<k) + T(d)))
			}
		}
	}
	for d := 0; d < 3; d++ {
		h := g.hi.Uint64() - uint64(d)
		out = append(out, T(h), T(g.hi.Uint64()+1+uint64(d)))
	}
	for i := 0; i < 30; i++ {
		out = append(out, T(r.rng.Uint64()>>uint(r.rng.Intn(64))))
	}
	return out
}

type vops[T vint] struct {
	name string
	bin  map[string]func(a, b T) string
	un   map[string]func(a T) string
}

func vrunInts[T vint](r *vrun, o vops[T], g vrange, spec func(op string, g vrange, a, b *big.Int) (string, bool)) {
	vals := vvals[T](r, g)
	for _, a := range vals {
		for op, f := range o.un {
			a := a
			want, ok := spec(op, g, vbig(a), nil)
			if ok {
				r.try(fmt.Sprintf("%s(%d).%s()", o.name, a, op), func() string { return vexpect("result", f(a), want) })
			}
		}
		for _, b := range vals {
			for op, f := range o.bin {
				want, ok := spec(op, g, vbig(a), vbig(b))
				if !ok {
					continue
				}
				a, b := a, b
				r.try(fmt.Sprintf("%s(%d).%s(%d)", o.name, a, op, b), func() (s string) {
					if want == "panic" {
						if !vpanics(func() { f(a, b) }) {
							return "no panic"
						}
						return ""
					}
					return vexpect("result", f(a, b), want)
				})
			}
		}
		if r.done() {
			return
		}
	}
}

func vintSpec(op string, g vrange, a, b *big.Int) (string, bool) {
	zero := b != nil && b.Sign() == 0
	q, m := new(big.Int), new(big.Int)
	if b != nil && !zero {
		q.QuoRem(a, b, m)
	}
	bi := func() *big.Int { return new(big.Int) }
	switch op {
	case "WrappingAdd", "Add", "AddAssign":
		return vwrap(g, bi().Add(a, b)).String(), true
	case "WrappingSub", "Sub", "SubAssign":
		return vwrap(g, bi().Sub(a, b)).String(), true
	case "WrappingMul", "Mul", "MulAssign":
		return vwrap(g, bi().Mul(a, b)).String(), true
	case "WrappingDiv", "Div", "DivAssign":
		if zero {
			return "panic", true
		}
		return vwrap(g, q).String(), true
	case "Rem", "RemAssign":
		if zero {
			return "panic", true
		}
		return m.String(), true
	case "CheckedAdd":
		return vchk(g, bi().Add(a, b)), true
	case "CheckedSub":
		return vchk(g, bi().Sub(a, b)), true
	case "CheckedMul":
		return vchk(g, bi().Mul(a, b)), true
	case "CheckedDiv":
		if zero {
			return "None", true
		}
		return vchk(g, q), true
	case "CheckedRem":
		if zero || vchk(g, q) == "None" {
			return "None", true
		}
		return m.String(), true
	case "SaturatingAdd":
		return vclamp(g, bi().Add(a, b)).String(), true
	case "SaturatingSub":
		return vclamp(g, bi().Sub(a, b)).String(), true
	case "SaturatingMul":
		return vclamp(g, bi().Mul(a, b)).String(), true
	case "SaturatingDiv":
		if zero {
			return "", false
		}
		return vclamp(g, q).String(), true
	case "AbsDiff":
		return bi().Abs(bi().Sub(a, b)).String(), true
	case "Abs":
		return vwrap(g, bi().Abs(a)).String(), true
	case "Neg":
		return vwrap(g, bi().Neg(a)).String(), true
	case "IsPositive":
		return fmt.Sprint(a.Sign() > 0), true
	case "IsNegative":
		return fmt.Sprint(a.Sign() < 0), true
	case "Shl":
		if b.Sign() < 0 {
			return "panic", true
		}
		if b.Cmp(big.NewInt(200)) > 0 {
			return "0", true
		}
		return vwrap(g, bi().Lsh(a, uint(b.Uint64()))).String(), true
	case "Shr":
		if b.Sign() < 0 {
			return "panic", true
		}
		n := uint(200)
		if b.Cmp(big.NewInt(200)) < 0 {
			n = uint(b.Uint64())
		}
		return bi().Rsh(a, n).String(), true
	case "Pow":
		if b.Sign() < 0 || b.BitLen() > 32 {
			return "", false
		}
		mod := bi().Lsh(big.NewInt(1), g.bits)
		return vwrap(g, bi().Exp(bi().Mod(a, mod), b, mod)).String(), true
	}
	return "", false
}

var _ = search("P01", "every integer type against big.Int", func(r *vrun) {
	vrunInts(r, vops[ISize]{"ISize", map[string]func(a, b ISize) string{
		"WrappingAdd": func(a, b ISize) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b ISize) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b ISize) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b ISize) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a ISize) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[I8]{"I8", map[string]func(a, b I8) string{
		"WrappingAdd": func(a, b I8) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b I8) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b I8) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b I8) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a I8) string{}}, vrangeOf(8, true), vintSpec)
	vrunInts(r, vops[I16]{"I16", map[string]func(a, b I16) string{
		"WrappingAdd": func(a, b I16) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b I16) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b I16) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b I16) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a I16) string{}}, vrangeOf(16, true), vintSpec)
	vrunInts(r, vops[I32]{"I32", map[string]func(a, b I32) string{
		"WrappingAdd": func(a, b I32) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b I32) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b I32) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b I32) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a I32) string{}}, vrangeOf(32, true), vintSpec)
	vrunInts(r, vops[I64]{"I64", map[string]func(a, b I64) string{
		"WrappingAdd": func(a, b I64) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b I64) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b I64) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b I64) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a I64) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[USize]{"USize", map[string]func(a, b USize) string{
		"WrappingAdd": func(a, b USize) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b USize) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b USize) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b USize) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a USize) string{}}, vrangeOf(64, false), vintSpec)
	vrunInts(r, vops[U8]{"U8", map[string]func(a, b U8) string{
		"WrappingAdd": func(a, b U8) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b U8) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b U8) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b U8) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a U8) string{}}, vrangeOf(8, false), vintSpec)
	vrunInts(r, vops[U16]{"U16", map[string]func(a, b U16) string{
		"WrappingAdd": func(a, b U16) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b U16) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b U16) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b U16) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a U16) string{}}, vrangeOf(16, false), vintSpec)
	vrunInts(r, vops[U32]{"U32", map[string]func(a, b U32) string{
		"WrappingAdd": func(a, b U32) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b U32) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b U32) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b U32) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a U32) string{}}, vrangeOf(32, false), vintSpec)
	vrunInts(r, vops[U64]{"U64", map[string]func(a, b U64) string{
		"WrappingAdd": func(a, b U64) string { return fmt.Sprintf("%d", a.WrappingAdd(b)) },
		"WrappingSub": func(a, b U64) string { return fmt.Sprintf("%d", a.WrappingSub(b)) },
		"WrappingMul": func(a, b U64) string { return fmt.Sprintf("%d", a.WrappingMul(b)) },
		"WrappingDiv": func(a, b U64) string { return fmt.Sprintf("%d", a.WrappingDiv(b)) },
	}, map[string]func(a U64) string{}}, vrangeOf(64, false), vintSpec)
})

var _ = search("P02", "every integer type against big.Int", func(r *vrun) {
	vrunInts(r, vops[ISize]{"ISize", map[string]func(a, b ISize) string{
		"CheckedAdd": func(a, b ISize) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b ISize) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b ISize) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b ISize) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b ISize) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a ISize) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[I8]{"I8", map[string]func(a, b I8) string{
		"CheckedAdd": func(a, b I8) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b I8) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b I8) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b I8) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b I8) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a I8) string{}}, vrangeOf(8, true), vintSpec)
	vrunInts(r, vops[I16]{"I16", map[string]func(a, b I16) string{
		"CheckedAdd": func(a, b I16) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b I16) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b I16) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b I16) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b I16) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a I16) string{}}, vrangeOf(16, true), vintSpec)
	vrunInts(r, vops[I32]{"I32", map[string]func(a, b I32) string{
		"CheckedAdd": func(a, b I32) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b I32) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b I32) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b I32) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b I32) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a I32) string{}}, vrangeOf(32, true), vintSpec)
	vrunInts(r, vops[I64]{"I64", map[string]func(a, b I64) string{
		"CheckedAdd": func(a, b I64) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b I64) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b I64) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b I64) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b I64) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a I64) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[USize]{"USize", map[string]func(a, b USize) string{
		"CheckedAdd": func(a, b USize) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b USize) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b USize) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b USize) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b USize) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a USize) string{}}, vrangeOf(64, false), vintSpec)
	vrunInts(r, vops[U8]{"U8", map[string]func(a, b U8) string{
		"CheckedAdd": func(a, b U8) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b U8) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b U8) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b U8) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b U8) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a U8) string{}}, vrangeOf(8, false), vintSpec)
	vrunInts(r, vops[U16]{"U16", map[string]func(a, b U16) string{
		"CheckedAdd": func(a, b U16) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b U16) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b U16) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b U16) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b U16) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a U16) string{}}, vrangeOf(16, false), vintSpec)
	vrunInts(r, vops[U32]{"U32", map[string]func(a, b U32) string{
		"CheckedAdd": func(a, b U32) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b U32) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b U32) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b U32) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b U32) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a U32) string{}}, vrangeOf(32, false), vintSpec)
	vrunInts(r, vops[U64]{"U64", map[string]func(a, b U64) string{
		"CheckedAdd": func(a, b U64) string { return vopt(a.CheckedAdd(b)) },
		"CheckedSub": func(a, b U64) string { return vopt(a.CheckedSub(b)) },
		"CheckedMul": func(a, b U64) string { return vopt(a.CheckedMul(b)) },
		"CheckedDiv": func(a, b U64) string { return vopt(a.CheckedDiv(b)) },
		"CheckedRem": func(a, b U64) string { return vopt(a.CheckedRem(b)) },
	}, map[string]func(a U64) string{}}, vrangeOf(64, false), vintSpec)
})

var _ = search("P03", "every integer type against big.Int", func(r *vrun) {
	vrunInts(r, vops[ISize]{"ISize", map[string]func(a, b ISize) string{
		"SaturatingAdd": func(a, b ISize) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b ISize) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b ISize) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b ISize) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a ISize) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[I8]{"I8", map[string]func(a, b I8) string{
		"SaturatingAdd": func(a, b I8) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b I8) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b I8) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b I8) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a I8) string{}}, vrangeOf(8, true), vintSpec)
	vrunInts(r, vops[I16]{"I16", map[string]func(a, b I16) string{
		"SaturatingAdd": func(a, b I16) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b I16) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b I16) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b I16) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a I16) string{}}, vrangeOf(16, true), vintSpec)
	vrunInts(r, vops[I32]{"I32", map[string]func(a, b I32) string{
		"SaturatingAdd": func(a, b I32) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b I32) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b I32) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b I32) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a I32) string{}}, vrangeOf(32, true), vintSpec)
	vrunInts(r, vops[I64]{"I64", map[string]func(a, b I64) string{
		"SaturatingAdd": func(a, b I64) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b I64) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b I64) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b I64) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a I64) string{}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[USize]{"USize", map[string]func(a, b USize) string{
		"SaturatingAdd": func(a, b USize) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b USize) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b USize) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b USize) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a USize) string{}}, vrangeOf(64, false), vintSpec)
	vrunInts(r, vops[U8]{"U8", map[string]func(a, b U8) string{
		"SaturatingAdd": func(a, b U8) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b U8) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b U8) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b U8) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a U8) string{}}, vrangeOf(8, false), vintSpec)
	vrunInts(r, vops[U16]{"U16", map[string]func(a, b U16) string{
		"SaturatingAdd": func(a, b U16) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b U16) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b U16) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b U16) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a U16) string{}}, vrangeOf(16, false), vintSpec)
	vrunInts(r, vops[U32]{"U32", map[string]func(a, b U32) string{
		"SaturatingAdd": func(a, b U32) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b U32) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b U32) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b U32) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a U32) string{}}, vrangeOf(32, false), vintSpec)
	vrunInts(r, vops[U64]{"U64", map[string]func(a, b U64) string{
		"SaturatingAdd": func(a, b U64) string { return fmt.Sprintf("%d", a.SaturatingAdd(b)) },
		"SaturatingSub": func(a, b U64) string { return fmt.Sprintf("%d", a.SaturatingSub(b)) },
		"SaturatingMul": func(a, b U64) string { return fmt.Sprintf("%d", a.SaturatingMul(b)) },
		"SaturatingDiv": func(a, b U64) string { return fmt.Sprintf("%d", a.SaturatingDiv(b)) },
	}, map[string]func(a U64) string{}}, vrangeOf(64, false), vintSpec)
})

var _ = search("P04", "every integer type against big.Int", func(r *vrun) {
	vrunInts(r, vops[ISize]{"ISize", map[string]func(a, b ISize) string{
		"Add":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b ISize) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b ISize) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b ISize) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b ISize) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b ISize) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b ISize) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b ISize) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a ISize) string{
		"Neg":        func(a ISize) string { return fmt.Sprintf("%d", a.Neg(0)) },
		"Abs":        func(a ISize) string { return fmt.Sprintf("%d", a.Abs()) },
		"IsPositive": func(a ISize) string { return fmt.Sprint(a.IsPositive()) },
		"IsNegative": func(a ISize) string { return fmt.Sprint(a.IsNegative()) },
	}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[I8]{"I8", map[string]func(a, b I8) string{
		"Add":       func(a, b I8) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b I8) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b I8) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b I8) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b I8) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b I8) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b I8) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b I8) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b I8) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b I8) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b I8) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b I8) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b I8) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b I8) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a I8) string{
		"Neg":        func(a I8) string { return fmt.Sprintf("%d", a.Neg(0)) },
		"Abs":        func(a I8) string { return fmt.Sprintf("%d", a.Abs()) },
		"IsPositive": func(a I8) string { return fmt.Sprint(a.IsPositive()) },
		"IsNegative": func(a I8) string { return fmt.Sprint(a.IsNegative()) },
	}}, vrangeOf(8, true), vintSpec)
	vrunInts(r, vops[I16]{"I16", map[string]func(a, b I16) string{
		"Add":       func(a, b I16) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b I16) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b I16) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b I16) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b I16) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b I16) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b I16) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b I16) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b I16) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b I16) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b I16) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b I16) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b I16) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b I16) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a I16) string{
		"Neg":        func(a I16) string { return fmt.Sprintf("%d", a.Neg(0)) },
		"Abs":        func(a I16) string { return fmt.Sprintf("%d", a.Abs()) },
		"IsPositive": func(a I16) string { return fmt.Sprint(a.IsPositive()) },
		"IsNegative": func(a I16) string { return fmt.Sprint(a.IsNegative()) },
	}}, vrangeOf(16, true), vintSpec)
	vrunInts(r, vops[I32]{"I32", map[string]func(a, b I32) string{
		"Add":       func(a, b I32) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b I32) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b I32) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b I32) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b I32) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b I32) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b I32) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b I32) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b I32) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b I32) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b I32) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b I32) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b I32) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b I32) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a I32) string{
		"Neg":        func(a I32) string { return fmt.Sprintf("%d", a.Neg(0)) },
		"Abs":        func(a I32) string { return fmt.Sprintf("%d", a.Abs()) },
		"IsPositive": func(a I32) string { return fmt.Sprint(a.IsPositive()) },
		"IsNegative": func(a I32) string { return fmt.Sprint(a.IsNegative()) },
	}}, vrangeOf(32, true), vintSpec)
	vrunInts(r, vops[I64]{"I64", map[string]func(a, b I64) string{
		"Add":       func(a, b I64) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b I64) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b I64) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b I64) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b I64) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b I64) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b I64) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b I64) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b I64) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b I64) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b I64) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b I64) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b I64) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b I64) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a I64) string{
		"Neg":        func(a I64) string { return fmt.Sprintf("%d", a.Neg(0)) },
		"Abs":        func(a I64) string { return fmt.Sprintf("%d", a.Abs()) },
		"IsPositive": func(a I64) string { return fmt.Sprint(a.IsPositive()) },
		"IsNegative": func(a I64) string { return fmt.Sprint(a.IsNegative()) },
	}}, vrangeOf(64, true), vintSpec)
	vrunInts(r, vops[USize]{"USize", map[string]func(a, b USize) string{
		"Add":       func(a, b USize) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b USize) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b USize) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b USize) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b USize) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b USize) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b USize) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b USize) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b USize) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b USize) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b USize) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b USize) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b USize) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b USize) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a USize) string{}}, vrangeOf(64, false), vintSpec)
	vrunInts(r, vops[U8]{"U8", map[string]func(a, b U8) string{
		"Add":       func(a, b U8) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b U8) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b U8) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b U8) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b U8) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b U8) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b U8) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b U8) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b U8) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b U8) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b U8) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b U8) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b U8) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b U8) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a U8) string{}}, vrangeOf(8, false), vintSpec)
	vrunInts(r, vops[U16]{"U16", map[string]func(a, b U16) string{
		"Add":       func(a, b U16) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b U16) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b U16) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b U16) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b U16) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b U16) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b U16) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b U16) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b U16) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b U16) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b U16) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b U16) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b U16) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b U16) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a U16) string{}}, vrangeOf(16, false), vintSpec)
	vrunInts(r, vops[U32]{"U32", map[string]func(a, b U32) string{
		"Add":       func(a, b U32) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b U32) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b U32) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b U32) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b U32) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b U32) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b U32) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b U32) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b U32) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b U32) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b U32) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b U32) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b U32) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b U32) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a U32) string{}}, vrangeOf(32, false), vintSpec)
	vrunInts(r, vops[U64]{"U64", map[string]func(a, b U64) string{
		"Add":       func(a, b U64) string { return fmt.Sprintf("%d", a.Add(b)) },
		"Sub":       func(a, b U64) string { return fmt.Sprintf("%d", a.Sub(b)) },
		"Mul":       func(a, b U64) string { return fmt.Sprintf("%d", a.Mul(b)) },
		"Div":       func(a, b U64) string { return fmt.Sprintf("%d", a.Div(b)) },
		"Rem":       func(a, b U64) string { return fmt.Sprintf("%d", a.Rem(b)) },
		"AbsDiff":   func(a, b U64) string { return fmt.Sprintf("%d", a.AbsDiff(b)) },
		"Shl":       func(a, b U64) string { return fmt.Sprintf("%d", a.Shl(b)) },
		"Shr":       func(a, b U64) string { return fmt.Sprintf("%d", a.Shr(b)) },
		"AddAssign": func(a, b U64) string { a.AddAssign(b); return fmt.Sprintf("%d", a) },
		"SubAssign": func(a, b U64) string { a.SubAssign(b); return fmt.Sprintf("%d", a) },
		"MulAssign": func(a, b U64) string { a.MulAssign(b); return fmt.Sprintf("%d", a) },
		"DivAssign": func(a, b U64) string { a.DivAssign(b); return fmt.Sprintf("%d", a) },
		"RemAssign": func(a, b U64) string { a.RemAssign(b); return fmt.Sprintf("%d", a) },
		"Pow":       func(a, b U64) string { return fmt.Sprintf("%d", a.Pow(U32(b))) },
	}, map[string]func(a U64) string{}}, vrangeOf(64, false), vintSpec)
})
