package gost

import (
	"fmt"
	"math/big"
)

var vmath2p64 = new(big.Int).Lsh(big.NewInt(1), 64)

func vdnanos(d Duration) *big.Int {
	x := new(big.Int).SetUint64(uint64(d.seconds))
	x.Mul(x, big.NewInt(1000000000))
	return x.Add(x, big.NewInt(int64(d.nanoseconds)))
}
func vdur(want *big.Int, f func() Duration) string {
	if s := new(big.Int).Div(want, big.NewInt(1000000000)); s.Cmp(vmath2p64) >= 0 {
		if !vpanics(func() { f() }) {
			return "no panic although the seconds do not fit"
		}
		return ""
	}
	d := f()
	if d.nanoseconds >= 1000000000 {
		return fmt.Sprintf("fraction of %d nanoseconds", d.nanoseconds)
	}
	return vexpect("total nanoseconds", vdnanos(d).String(), want.String())
}

var _ = search("P19", "durations against arbitrary-precision arithmetic", func(r *vrun) {
	big64 := func(x uint64, m int64) *big.Int {
		y := new(big.Int).SetUint64(x)
		return y.Mul(y, big.NewInt(m))
	}
	edges := []uint64{0, 1, 2, 9, 10, 999, 1000, 1001, 999999, 1000000, 1000001, 999999999, 1000000000, 1000000001, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0) - 5, ^uint64(0) - 4, ^uint64(0) - 1, ^uint64(0)}
	pick := func() uint64 {
		if r.rng.Intn(2) == 0 {
			return r.rng.Uint64() >> uint(r.rng.Intn(64))
		}
		return edges[r.rng.Intn(len(edges))]
	}
	one := func(a, b uint64) {
		n := U32(b)
		r.try(fmt.Sprintf("DurationNew(%d, %d)", a, n), func() string {
			w := big64(a, 1000000000)
			return vdur(w.Add(w, big.NewInt(int64(n))), func() Duration { return DurationNew(U64(a), n) })
		})
		r.try(fmt.Sprintf("DurationFromSecs(%d)", a), func() string {
			return vdur(big64(a, 1000000000), func() Duration { return DurationFromSecs(U64(a)) })
		})
		r.try(fmt.Sprintf("DurationFromMillis(%d)", a), func() string {
			return vdur(big64(a, 1000000), func() Duration { return DurationFromMillis(U64(a)) })
		})
		r.try(fmt.Sprintf("DurationFromMicros(%d)", a), func() string {
			return vdur(big64(a, 1000), func() Duration { return DurationFromMicros(U64(a)) })
		})
		r.try(fmt.Sprintf("DurationFromNanos(%d)", a), func() string {
			return vdur(big64(a, 1), func() Duration { return DurationFromNanos(U64(a)) })
		})
		d := Duration{U64(a), n % 1000000000}
		t := vdnanos(d)
		q := func(k int64) string { return new(big.Int).Div(t, big.NewInt(k)).String() }
		f := int64(d.nanoseconds)
		r.try(fmt.Sprintf("accessors of %d s + %d ns", a, d.nanoseconds), func() string {
			for _, s := range []string{
				vexpect("IsZero", d.IsZero(), t.Sign() == 0),
				vexpect("AsSecs", uint64(d.AsSecs()), a),
				vexpect("SubsecMillis", int64(d.SubsecMillis()), f/1000000),
				vexpect("SubsecMicros", int64(d.SubsecMicros()), f/1000),
				vexpect("SubsecNanos", int64(d.SubsecNanos()), f),
				vexpect("AsMillis", vuv(d.AsMillis()).String(), q(1000000)),
				vexpect("AsMicros", vuv(d.AsMicros()).String(), q(1000)),
				vexpect("AsNanos", vuv(d.AsNanos()).String(), t.String()),
			} {
				if s != "" {
					return s
				}
			}
			return ""
		})
	}
	for _, a := range edges {
		for _, b := range edges {
			one(a, b)
		}
	}
	for i := 0; i < 20000 && !r.done(); i++ {
		one(pick(), pick())
	}
})
