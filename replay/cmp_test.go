package gost

import (
	"math"
	"math/big"
	"strings"
)

func vsgn[T int64 | uint64 | float64 | string](a, b T) Ordering {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func vpairs(r *vrun, f func(a, b int64)) {
	xs := []int64{0, 1, -1, 2, -2, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}
	for _, a := range xs {
		for _, b := range xs {
			f(a, b)
		}
	}
	for i := 0; i < 300000 && !r.done(); i++ {
		a := int64(r.rng.Uint64()) >> uint(r.rng.Intn(64))
		b := int64(r.rng.Uint64()) >> uint(r.rng.Intn(64))
		if r.rng.Intn(4) == 0 {
			b = a + int64(r.rng.Intn(3)-1)
		}
		f(a, b)
	}
}

func vcmpT[T Ord[T]](r *vrun, name string, a, b T, want Ordering) {
	r.try(vj(name, "Cmp", a, b), func() string { return vexpect("ordering", a.Cmp(b), want) })
	r.try(vj(name, "Eq", a, b), func() string { return vexpect("equality", bool(a.Eq(b)), want == 0) })
}

func vbig128(hi *big.Int, lo uint64) *big.Int {
	x := new(big.Int).Lsh(hi, 64)
	return x.Add(x, new(big.Int).SetUint64(lo))
}

var _ = search("P07", "Cmp and Eq", func(r *vrun) {
	vpairs(r, func(a, b int64) {
		vcmpT(r, "ISize", ISize(a), ISize(b), vsgn(a, b))
		vcmpT(r, "I64", I64(a), I64(b), vsgn(a, b))
		vcmpT(r, "I32", I32(a), I32(b), vsgn(int64(int32(a)), int64(int32(b))))
		vcmpT(r, "I16", I16(a), I16(b), vsgn(int64(int16(a)), int64(int16(b))))
		vcmpT(r, "I8", I8(a), I8(b), vsgn(int64(int8(a)), int64(int8(b))))
		vcmpT(r, "USize", USize(a), USize(b), vsgn(uint64(a), uint64(b)))
		vcmpT(r, "U64", U64(a), U64(b), vsgn(uint64(a), uint64(b)))
		vcmpT(r, "U32", U32(a), U32(b), vsgn(uint64(uint32(a)), uint64(uint32(b))))
		vcmpT(r, "U16", U16(a), U16(b), vsgn(uint64(uint16(a)), uint64(uint16(b))))
		vcmpT(r, "U8", U8(a), U8(b), vsgn(uint64(uint8(a)), uint64(uint8(b))))
		vcmpT(r, "Byte", Byte(a), Byte(b), vsgn(uint64(uint8(a)), uint64(uint8(b))))
		vcmpT(r, "Char", Char(a), Char(b), vsgn(int64(int32(a)), int64(int32(b))))
		vcmpT(r, "F64", F64(a), F64(b), vsgn(float64(a), float64(b)))
		vcmpT(r, "F32", F32(a), F32(b), vsgn(float64(float32(a)), float64(float32(b))))
		vcmpT(r, "Bool", Bool(a > 0), Bool(b > 0), vsgn(int64(b2i(a > 0)), int64(b2i(b > 0))))
		sa, sb := strings.Repeat("ab", int(uint8(a)%4))+string(rune('a'+uint8(a)%3)), strings.Repeat("ab", int(uint8(b)%4))+string(rune('a'+uint8(b)%3))
		vcmpT(r, "String", String(sa), String(sb), vsgn(sa, sb))
		vcmpT(r, "Pair", Pair[I8, I8]{I8(a), I8(a >> 8)}, Pair[I8, I8]{I8(b), I8(b >> 8)},
			func() Ordering {
				if o := vsgn(int64(int8(a)), int64(int8(b))); o != 0 {
					return o
				}
				return vsgn(int64(int8(a>>8)), int64(int8(b>>8)))
			}())
		for _, c := range [][2]int64{{a, b}, {b, a}, {a, a}, {b, b}} {
			vcmpT(r, "I128", I128{high: I64(a), low: U64(b)}, I128{high: I64(c[0]), low: U64(c[1])},
				Ordering(vbig128(big.NewInt(a), uint64(b)).Cmp(vbig128(big.NewInt(c[0]), uint64(c[1])))))
			vcmpT(r, "U128", U128{high: U64(a), low: U64(b)}, U128{high: U64(c[0]), low: U64(c[1])},
				Ordering(vbig128(new(big.Int).SetUint64(uint64(a)), uint64(b)).Cmp(vbig128(new(big.Int).SetUint64(uint64(c[0])), uint64(c[1])))))
		}
	})
})

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
