package gost

import (
	"fmt"
	"math"
)

func vsame64(a, b float64) bool {
	return math.IsNaN(a) && math.IsNaN(b) || math.Float64bits(a) == math.Float64bits(b)
}
func vsame32(a, b float32) bool {
	return a != a && b != b || math.Float32bits(a) == math.Float32bits(b)
}

var _ = search("P26", "floating-point methods against package math", func(r *vrun) {
	specials := []float64{0, math.Copysign(0, -1), 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 1, -1, 3.7, -3.7, 0.49999999999999994, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 23, 1<<24 + 1, 1 << 52, 1<<53 - 1, 8388607.5, -4503599627370495.5}
	pick := func() float64 {
		switch r.rng.Intn(4) {
		case 0:
			return specials[r.rng.Intn(len(specials))]
		case 1:
			return math.Float64frombits(r.rng.Uint64())
		case 2:
			return float64(math.Float32frombits(uint32(r.rng.Uint64())))
		}
		return (r.rng.Float64() - 0.5) * math.Exp2(float64(r.rng.Intn(60)-5))
	}
	for !r.done() {
		x, y, n := pick(), pick(), r.rng.Intn(21)-10
		f, g := float32(x), float32(y)
		r.try(fmt.Sprintf("F64 %v (%#x), %v, %d", x, math.Float64bits(x), y, n), func() string {
			a, b := F64(x), F64(y)
			for _, c := range []struct {
				n    string
				got  F64
				want float64
			}{
				{"Floor", a.Floor(), math.Floor(x)}, {"Ceil", a.Ceil(), math.Ceil(x)}, {"Round", a.Round(), math.Round(x)}, {"Trunc", a.Trunc(), math.Trunc(x)}, {"Abs", a.Abs(), math.Abs(x)},
				{"Sqrt", a.Sqrt(), math.Sqrt(x)}, {"Exp", a.Exp(), math.Exp(x)}, {"Exp2", a.Exp2(), math.Exp2(x)}, {"Ln", a.Ln(), math.Log(x)}, {"Log", a.Log(b), math.Log(x) / math.Log(y)},
				{"Log2", a.Log2(), math.Log2(x)}, {"Log10", a.Log10(), math.Log10(x)}, {"Powi", a.Powi(n), math.Pow(x, float64(n))}, {"Powf", a.Powf(b), math.Pow(x, y)},
				{"Add", a.Add(b), x + y}, {"Sub", a.Sub(b), x - y}, {"Mul", a.Mul(b), x * y}, {"Div", a.Div(b), x / y},
			} {
				if !vsame64(float64(c.got), c.want) {
					return fmt.Sprintf("%s: got %v, want %v", c.n, c.got, c.want)
				}
			}
			if fr := x - math.Trunc(x); !math.IsInf(x, 0) && float64(a.Frac()) != fr && fr == fr {
				return fmt.Sprintf("Frac: got %v, want %v", a.Frac(), fr)
			}
			for k, want := range []float64{x + y, x - y, x * y, x / y} {
				z := a
				[]func(){func() { z.AddAssign(b) }, func() { z.SubAssign(b) }, func() { z.MulAssign(b) }, func() { z.DivAssign(b) }}[k]()
				if !vsame64(float64(z), want) {
					return fmt.Sprintf("assignment form %d: got %v, want %v", k, z, want)
				}
			}
			return ""
		})
		r.try(fmt.Sprintf("F32 %v (%#x), %v, %d", f, math.Float32bits(f), g, n), func() string {
			a, b := F32(f), F32(g)
			x, y := float64(f), float64(g)
			for _, c := range []struct {
				n    string
				got  F32
				want float64
			}{
				{"Floor", a.Floor(), math.Floor(x)}, {"Ceil", a.Ceil(), math.Ceil(x)}, {"Round", a.Round(), math.Round(x)}, {"Trunc", a.Trunc(), math.Trunc(x)}, {"Abs", a.Abs(), math.Abs(x)},
				{"Sqrt", a.Sqrt(), math.Sqrt(x)}, {"Exp", a.Exp(), math.Exp(x)}, {"Exp2", a.Exp2(), math.Exp2(x)}, {"Ln", a.Ln(), math.Log(x)}, {"Log", a.Log(b), math.Log(x) / math.Log(y)},
				{"Log2", a.Log2(), math.Log2(x)}, {"Log10", a.Log10(), math.Log10(x)}, {"Powi", a.Powi(n), math.Pow(x, float64(n))}, {"Powf", a.Powf(b), math.Pow(x, y)},
				{"Add", a.Add(b), float64(f + g)}, {"Sub", a.Sub(b), float64(f - g)}, {"Mul", a.Mul(b), float64(f * g)}, {"Div", a.Div(b), float64(f / g)},
			} {
				if !vsame32(float32(c.got), float32(c.want)) {
					return fmt.Sprintf("%s: got %v, want %v", c.n, c.got, float32(c.want))
				}
			}
			if fr := x - math.Trunc(x); !math.IsInf(x, 0) && float64(a.Frac()) != fr && fr == fr {
				return fmt.Sprintf("Frac: got %v, want %v", a.Frac(), fr)
			}
			for k, want := range []float32{f + g, f - g, f * g, f / g} {
				z := a
				[]func(){func() { z.AddAssign(b) }, func() { z.SubAssign(b) }, func() { z.MulAssign(b) }, func() { z.DivAssign(b) }}[k]()
				if !vsame32(float32(z), want) {
					return fmt.Sprintf("assignment form %d: got %v, want %v", k, z, want)
				}
			}
			return ""
		})
	}
})
