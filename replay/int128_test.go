package gost

import (
	"fmt"
	"math/big"
)

// 128-bit arithmetic against arbitrary-precision arithmetic.
var vm128 = new(big.Int).Lsh(big.NewInt(1), 128)
var vm127 = new(big.Int).Lsh(big.NewInt(1), 127)

func viv(x I128) *big.Int { return vbig128(big.NewInt(int64(x.high)), uint64(x.low)) }
func vuv(x U128) *big.Int {
	return vbig128(new(big.Int).SetUint64(uint64(x.high)), uint64(x.low))
}
func vwu(x *big.Int) *big.Int { return new(big.Int).Mod(x, vm128) }
func vws(x *big.Int) *big.Int {
	y := vwu(x)
	if y.Cmp(vm127) >= 0 {
		y.Sub(y, vm128)
	}
	return y
}

var vlimbs = []uint64{0, 1, 2, 3, 5, 7, 10, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0)}

func vlimb(r *vrun) uint64 {
	if r.rng.Intn(3) == 0 {
		return r.rng.Uint64() >> uint(r.rng.Intn(64))
	}
	return vlimbs[r.rng.Intn(len(vlimbs))]
}
func vbin[T any](r *vrun, name string, a, b *big.Int, va, vb T, f func(T, T) T, val func(T) *big.Int, want *big.Int) {
	r.try(fmt.Sprintf("(%v).%s(%v)", a, name, b), func() string {
		return vexpect("result", val(f(va, vb)).String(), want.String())
	})
}
func vasg[T any](f func(*T, T)) func(T, T) T {
	return func(a, b T) T { f(&a, b); return a }
}
func v128pairs(r *vrun, f func(ah, al, bh, bl uint64)) {
	for _, h := range []uint64{0, 1, 1 << 63, 1<<63 - 1, ^uint64(0)} {
		for _, l := range []uint64{0, 1, 1 << 63, ^uint64(0)} {
			for _, h2 := range []uint64{0, 1, 1 << 63, 1<<63 - 1, ^uint64(0)} {
				for _, l2 := range []uint64{0, 1, 10, 1 << 63, ^uint64(0)} {
					f(h, l, h2, l2)
				}
			}
		}
	}
	for i := 0; i < 4000; i++ {
		f(vlimb(r), vlimb(r), vlimb(r), vlimb(r))
	}
}

var _ = search("P05", "128-bit add, sub, mul, neg, abs, shifts", func(r *vrun) {
	for k := 0; k < 130; k++ {
		for _, h := range vlimbs {
			l := vlimb(r)
			a, b := I128{I64(h), U64(l)}, U128{U64(h), U64(l)}
			A, B := viv(a), vuv(b)
			cs, cu := I128{0, U64(k)}, U128{0, U64(k)}
			r.try(fmt.Sprintf("I128(%v).Shl(%d)", A, k), func() string {
				return vexpect("result", viv(a.Shl(cs)).String(), vws(new(big.Int).Lsh(A, uint(k))).String())
			})
			r.try(fmt.Sprintf("I128(%v).Shr(%d)", A, k), func() string {
				return vexpect("result", viv(a.Shr(cs)).String(), vws(new(big.Int).Rsh(A, uint(k))).String())
			})
			r.try(fmt.Sprintf("U128(%v).Shl(%d)", B, k), func() string {
				return vexpect("result", vuv(b.Shl(cu)).String(), vwu(new(big.Int).Lsh(B, uint(k))).String())
			})
			r.try(fmt.Sprintf("U128(%v).Shr(%d)", B, k), func() string {
				return vexpect("result", vuv(b.Shr(cu)).String(), vwu(new(big.Int).Rsh(B, uint(k))).String())
			})
		}
	}
	for _, h := range vlimbs {
		r.try(fmt.Sprintf("from %d", h), func() string {
			if s := vexpect("I128_FromI64", viv(I128_FromI64(I64(h))).String(), big.NewInt(int64(h)).String()); s != "" {
				return s
			}
			if s := vexpect("I128_FromU64", viv(I128_FromU64(U64(h))).String(), new(big.Int).SetUint64(h).String()); s != "" {
				return s
			}
			return vexpect("U128_FromU64", vuv(U128_FromU64(U64(h))).String(), new(big.Int).SetUint64(h).String())
		})
	}
	v128pairs(r, func(ah, al, bh, bl uint64) {
		a, b := I128{I64(ah), U64(al)}, I128{I64(bh), U64(bl)}
		A, B := viv(a), viv(b)
		vbin(r, "Add", A, B, a, b, I128.Add, viv, vws(new(big.Int).Add(A, B)))
		vbin(r, "Sub", A, B, a, b, I128.Sub, viv, vws(new(big.Int).Sub(A, B)))
		vbin(r, "Mul", A, B, a, b, I128.Mul, viv, vws(new(big.Int).Mul(A, B)))
		vbin(r, "AddAssign", A, B, a, b, vasg((*I128).AddAssign), viv, vws(new(big.Int).Add(A, B)))
		vbin(r, "SubAssign", A, B, a, b, vasg((*I128).SubAssign), viv, vws(new(big.Int).Sub(A, B)))
		vbin(r, "MulAssign", A, B, a, b, vasg((*I128).MulAssign), viv, vws(new(big.Int).Mul(A, B)))
		r.try(fmt.Sprintf("I128(%v) Neg, Abs, sign", A), func() string {
			if s := vexpect("Neg", viv(a.Neg()).String(), vws(new(big.Int).Neg(A)).String()); s != "" {
				return s
			}
			if s := vexpect("Abs", viv(a.Abs()).String(), vws(new(big.Int).Abs(A)).String()); s != "" {
				return s
			}
			if s := vexpect("IsPositive", a.IsPositive(), Bool(A.Sign() > 0)); s != "" {
				return s
			}
			return vexpect("IsNegative", a.IsNegative(), Bool(A.Sign() < 0))
		})
		c, d := U128{U64(ah), U64(al)}, U128{U64(bh), U64(bl)}
		C, D := vuv(c), vuv(d)
		vbin(r, "Add (U128)", C, D, c, d, U128.Add, vuv, vwu(new(big.Int).Add(C, D)))
		vbin(r, "Sub (U128)", C, D, c, d, U128.Sub, vuv, vwu(new(big.Int).Sub(C, D)))
		vbin(r, "Mul (U128)", C, D, c, d, U128.Mul, vuv, vwu(new(big.Int).Mul(C, D)))
		vbin(r, "AddAssign (U128)", C, D, c, d, vasg((*U128).AddAssign), vuv, vwu(new(big.Int).Add(C, D)))
		vbin(r, "SubAssign (U128)", C, D, c, d, vasg((*U128).SubAssign), vuv, vwu(new(big.Int).Sub(C, D)))
		vbin(r, "MulAssign (U128)", C, D, c, d, vasg((*U128).MulAssign), vuv, vwu(new(big.Int).Mul(C, D)))
	})
})

var _ = search("P06", "128-bit division, remainder and decimal conversion", func(r *vrun) {
	v128pairs(r, func(ah, al, bh, bl uint64) {
		a, b := I128{I64(ah), U64(al)}, I128{I64(bh), U64(bl)}
		A, B := viv(a), viv(b)
		c, d := U128{U64(ah), U64(al)}, U128{U64(bh), U64(bl)}
		C, D := vuv(c), vuv(d)
		r.try(fmt.Sprintf("ToString %v %v", A, C), func() string {
			if s := vexpect("I128.ToString", string(a.ToString()), A.String()); s != "" {
				return s
			}
			return vexpect("U128.ToString", string(c.ToString()), C.String())
		})
		if B.Sign() == 0 {
			r.try(fmt.Sprintf("%v by zero", A), func() string {
				for i, f := range []func(){func() { a.Div(b) }, func() { a.Rem(b) }, func() { c.Div(d) }, func() { c.Rem(d) },
					func() { x := a; x.DivAssign(b) }, func() { x := a; x.RemAssign(b) }, func() { x := c; x.DivAssign(d) }, func() { x := c; x.RemAssign(d) }} {
					if !vpanics(f) {
						return fmt.Sprintf("division by zero (%d) does not panic", i)
					}
				}
				return ""
			})
			return
		}
		q := vws(new(big.Int).Quo(A, B))
		m := new(big.Int).Mod(new(big.Int).Abs(A), new(big.Int).Abs(B))
		if (A.Sign() < 0) != (B.Sign() < 0) {
			m.Neg(m)
		}
		vbin(r, "Div", A, B, a, b, I128.Div, viv, q)
		vbin(r, "Rem", A, B, a, b, I128.Rem, viv, m)
		vbin(r, "DivAssign", A, B, a, b, vasg((*I128).DivAssign), viv, q)
		vbin(r, "RemAssign", A, B, a, b, vasg((*I128).RemAssign), viv, m)
		q2, m2 := new(big.Int).Quo(C, D), new(big.Int).Rem(C, D)
		vbin(r, "Div (U128)", C, D, c, d, U128.Div, vuv, q2)
		vbin(r, "Rem (U128)", C, D, c, d, U128.Rem, vuv, m2)
		vbin(r, "DivAssign (U128)", C, D, c, d, vasg((*U128).DivAssign), vuv, q2)
		vbin(r, "RemAssign (U128)", C, D, c, d, vasg((*U128).RemAssign), vuv, m2)
	})
})

var _ = search("P06", "128-bit division, remainder and decimal text", func(r *vrun) {
	one := func(ah, al, bh, bl uint64) {
		a, b := I128{I64(ah), U64(al)}, I128{I64(bh), U64(bl)}
		ua, ub := U128{U64(ah), U64(al)}, U128{U64(bh), U64(bl)}
		x, y, ux, uy := viv(a), viv(b), vuv(ua), vuv(ub)
		r.try(fmt.Sprintf("%v.ToString()", x), func() string { return vexpect("result", string(a.ToString()), x.String()) })
		r.try(fmt.Sprintf("%v.ToString()", ux), func() string { return vexpect("result", string(ua.ToString()), ux.String()) })
		if y.Sign() == 0 {
			r.try(fmt.Sprintf("(%v).Div(0)", x), func() string {
				if !vpanics(func() { a.Div(b) }) || !vpanics(func() { a.Rem(b) }) || !vpanics(func() { ua.Div(ub) }) || !vpanics(func() { ua.Rem(ub) }) {
					return "no panic"
				}
				return ""
			})
			return
		}
		rem := new(big.Int).Rem(new(big.Int).Abs(x), new(big.Int).Abs(y))
		if (x.Sign() < 0) != (y.Sign() < 0) {
			rem.Neg(rem)
		}
		vbin(r, "Div", x, y, a, b, I128.Div, viv, vws(new(big.Int).Quo(x, y)))
		vbin(r, "Rem", x, y, a, b, I128.Rem, viv, rem)
		vbin(r, "Div", ux, uy, ua, ub, U128.Div, vuv, new(big.Int).Quo(ux, uy))
		vbin(r, "Rem", ux, uy, ua, ub, U128.Rem, vuv, new(big.Int).Rem(ux, uy))
		r.try(fmt.Sprintf("(%v).DivAssign and RemAssign(%v)", x, y), func() string {
			p, q, up, uq := a, a, ua, ua
			p.DivAssign(b)
			q.RemAssign(b)
			up.DivAssign(ub)
			uq.RemAssign(ub)
			return vexpect("results", fmt.Sprint(viv(p), viv(q), vuv(up), vuv(uq)), fmt.Sprint(vws(new(big.Int).Quo(x, y)), rem, new(big.Int).Quo(ux, uy), new(big.Int).Rem(ux, uy)))
		})
	}
	v128pairs(r, one)
	for i := 0; i < 100000 && !r.done(); i++ {
		one(vlimb(r), vlimb(r), vlimb(r)>>uint(r.rng.Intn(2)*63), vlimb(r))
	}
})
