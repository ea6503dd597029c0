// 128-bit integers: high * 2^64 + low, high signed in I128
def i128v(x) = x.high * 18446744073709551616 + x.low
def wrU128(n) = n % 340282366920938463463374607431768211456
def wrI128(n) = (n + 170141183460469231731687303715884105728) % 340282366920938463463374607431768211456 - 170141183460469231731687303715884105728
foreach T in I128 U128 {
func $T.Add(self, rhs) @P05
  ensures [exact] i128v(result) == wr$T(i128v(self) + i128v(rhs))
func $T.Sub(self, rhs) @P05
  ensures [exact] i128v(result) == wr$T(i128v(self) - i128v(rhs))
func $T.AddAssign(self, rhs) @P05
  modifies *self
  ensures [exact] i128v(self) == wr$T(old(i128v(self)) + i128v(rhs))
func $T.SubAssign(self, rhs) @P05
  modifies *self
  ensures [exact] i128v(self) == wr$T(old(i128v(self)) - i128v(rhs))
func $T.MulAssign(self, rhs) @P05
  modifies *self
  ensures [exact] i128v(self) == wr$T(old(i128v(self)) * i128v(rhs))
}
func I128.Neg(self) @P05
  ensures [exact] i128v(result) == wrI128(0 - i128v(self))
func I128.Abs(self) @P05
  ensures [exact] i128v(result) == wrI128(abs(i128v(self)))
func I128.IsPositive(self) @P05
  ensures result <==> i128v(self) > 0
func I128.IsNegative(self) @P05
  ensures result <==> i128v(self) < 0
func U128_FromU64(low) @P05
  opt transparent
  ensures [exact] i128v(result) == low
func I128_FromU64(low) @P05
  opt transparent
  ensures [exact] i128v(result) == low
func I128_FromI64(low) @P05
  opt transparent
  ensures [exact] i128v(result) == low
foreach T, L, H in I128:U64:I64 U128:U64:U64 {
func $T.Shl(lhs, rhs) @P05
  requires rhs.high == 0
  opt bv
  opt transparent
  ensures [low] result.low == (if rhs.low < 128 then wrap($L, shl(i128v(lhs), rhs.low)) else 0)
  ensures [high] result.high == (if rhs.low < 128 then wrap($H, shr(shl(i128v(lhs), rhs.low), 64)) else 0)
func $T.Shr(lhs, rhs) @P05
  requires rhs.high == 0
  opt bv
  opt transparent
  ensures [low] result.low == wrap($L, shr(i128v(lhs), rhs.low))
  ensures [high] result.high == wrap($H, shr(shr(i128v(lhs), rhs.low), 64))
}
uf p2(int): int
axiom p2_zero() : p2(0) == 1
axiom p2_step(n: int, m: int) pattern (p2(n), p2(m)): 0 <= n && m == n + 1 ==> p2(m) == 2 * p2(n)
lemma p2_add(a: int, b: int, c: int)
  requires 0 <= a && 0 <= b && c == a + b
  induct b
  use 0 < b ==> p2_add(a, b - 1, c - 1)
  ensures p2(c) == p2(a) * p2(b)
lemma p2_128()
  use p2_add(1, 0, 1)
  use p2_add(1, 1, 2)
  use p2_add(2, 2, 4)
  use p2_add(4, 4, 8)
  use p2_add(8, 8, 16)
  use p2_add(16, 16, 32)
  use p2_add(32, 32, 64)
  use p2_add(64, 64, 128)
  ensures p2(128) == 340282366920938463463374607431768211456
// multiplication, bit by bit: prod(r, s, q) = r + s * q stays the same when q is halved and s doubled
foreach T in I128 U128 {
lemma wrcong$T(x: int, y: int, k: int)
  requires x == y + k * 340282366920938463463374607431768211456
  ensures wr$T(x) == wr$T(y)
uf prod$T(int, int, int): int
axiom prod_def$T(r: int, s: int, q: int) pattern (prod$T(r, s, q)): prod$T(r, s, q) == wr$T(r + s * q)
lemma prod_even$T(r: int, s: int, q2: int, s2: int)
  requires s2 == wr$T(2 * s)
  use wrcong$T(r + s2 * q2, r + s * (2 * q2), (s2 - 2 * s) / 340282366920938463463374607431768211456 * q2)
  ensures wr$T(r + s2 * q2) == wr$T(r + s * (2 * q2))
lemma prod_odd$T(r: int, s: int, q2: int, r2: int, s2: int)
  requires r2 == wr$T(r + s) && s2 == wr$T(2 * s)
  use wrcong$T(r2 + s2 * q2, r + s * (2 * q2 + 1), (s2 - 2 * s) / 340282366920938463463374607431768211456 * q2 + (r2 - r - s) / 340282366920938463463374607431768211456)
  ensures wr$T(r2 + s2 * q2) == wr$T(r + s * (2 * q2 + 1))
lemma prod_step$T(r: int, s: int, q: int, r2: int, s2: int, q2: int) pattern (prod$T(r, s, q), prod$T(r2, s2, q2))
  requires q == 2 * q2 && r2 == r && s2 == wr$T(2 * s) || q == 2 * q2 + 1 && r2 == wr$T(r + s) && s2 == wr$T(2 * s)
  use prod_even$T(r, s, q2, s2)
  use prod_odd$T(r, s, q2, r2, s2)
  ensures prod$T(r2, s2, q2) == prod$T(r, s, q)
lemma wrmul$T(a: int, b: int)
  use wrcong$T(wr$T(a) * b, a * b, (wr$T(a) - a) / 340282366920938463463374607431768211456 * b)
  ensures wr$T(wr$T(a) * b) == wr$T(a * b)
lemma wrmul2$T(s: int, a: int, b: int)
  requires s == wr$T(a)
  use wrcong$T(s * b, a * b, (s - a) / 340282366920938463463374607431768211456 * b)
  ensures wr$T(s * b) == wr$T(a * b)
lemma prod_congs$T(s: int, q: int, s2: int)
  requires s == s2 || s == wr$T(s2)
  use wrmul2$T(s, s2, q)
  ensures prod$T(0, s, q) == prod$T(0, s2, q)
lemma prod_congq$T(s: int, q: int, q2: int)
  requires q == q2 || q == wr$T(q2)
  use wrmul2$T(q, q2, s)
  ensures prod$T(0, s, q) == prod$T(0, s, q2)
lemma prod_cong$T(s: int, q: int, s2: int, q2: int) pattern (prod$T(0, s, q), prod$T(0, s2, q2))
  requires (s == s2 || s == wr$T(s2)) && (q == q2 || q == wr$T(q2))
  use prod_congs$T(s, q, s2)
  use prod_congq$T(s2, q, q2)
  ensures prod$T(0, s, q) == prod$T(0, s2, q2)
uf dbl$T(int, int): int
axiom dbl_def$T(x: int, i: int) pattern (dbl$T(x, i)): dbl$T(x, i) == wr$T(x * p2(i))
lemma wrdbl$T(y: int)
  ensures wr$T(2 * wr$T(y)) == wr$T(2 * y)
lemma dbl_step$T(x: int, i: int, j: int) pattern (dbl$T(x, i), dbl$T(x, j))
  requires j == i + 1 && 0 <= i
  use wrdbl$T(x * p2(i))
  ensures dbl$T(x, j) == wr$T(2 * dbl$T(x, i))
lemma dbl_end$T(x: int, i: int) pattern (dbl$T(x, i))
  requires i == 128
  use p2_128()
  ensures dbl$T(x, i) == 0
lemma prod_end$T(r: int, s: int, q: int) pattern (prod$T(r, s, q))
  requires s == 0
  ensures prod$T(r, s, q) == wr$T(r)
}
lemma wrnegI128(y: int)
  ensures wrI128(0 - wrI128(y)) == wrI128(0 - y)
lemma absprod(x: int, y: int)
  use wrnegI128(abs(x) * abs(y))
  ensures (x < 0 <==> y < 0) ==> wrI128(abs(x) * abs(y)) == wrI128(x * y)
  ensures (x < 0 <==> y >= 0) ==> wrI128(0 - wrI128(abs(x) * abs(y))) == wrI128(x * y)
func U128.Mul(self, rhs) @P05
  opt noauto
  use p2_128()
  inv 0 <= ?i_ && ?i_ <= 128
  inv prodU128(i128v(?p), i128v(self), i128v(rhs)) == prodU128(0, old(i128v(self)), old(i128v(rhs)))
  inv i128v(self) == dblU128(old(i128v(self)), ?i_)
  ensures [exact] i128v(result) == wrU128(i128v(self) * i128v(rhs))
func I128.Mul(self, rhs) @P05
  opt noauto
  use p2_128()
  inv 0 <= ?i_ && ?i_ <= 128
  use absprod(old(i128v(self)), old(i128v(rhs)))
  inv prodI128(i128v(?p), i128v(self), i128v(rhs)) == prodI128(0, old(abs(i128v(self))), old(abs(i128v(rhs))))
  inv i128v(self) == dblI128(old(abs(i128v(self))), ?i_)
  ensures [exact] i128v(result) == wrI128(i128v(self) * i128v(rhs))
