// Fixed-width integer arithmetic: every method computes the mathematical result, reduced, reported or clamped
// as its family promises. Machine integers are modelled exactly (wrap-around on every operation).

foreach T in ISize I8 I16 I32 I64 USize U8 U16 U32 U64 {
func $T.WrappingAdd(self, rhs) @P01
  ensures [exact] result == wrap($T, self + rhs)
func $T.WrappingSub(self, rhs) @P01
  ensures [exact] result == wrap($T, self - rhs)
func $T.WrappingMul(self, rhs) @P01
  ensures [exact] result == wrap($T, self * rhs)
func $T.WrappingDiv(self, rhs) @P01
  panics_if rhs == 0
  ensures [exact] result == wrap($T, tdiv(self, rhs))

func $T.CheckedAdd(self, rhs) @P02
  ensures [exact] noneOr(result, inT(minof($T), maxof($T), self + rhs), self + rhs)
func $T.CheckedSub(self, rhs) @P02
  ensures [exact] noneOr(result, inT(minof($T), maxof($T), self - rhs), self - rhs)
func $T.CheckedMul(self, rhs) @P02
  ensures [exact] noneOr(result, inT(minof($T), maxof($T), self * rhs), self * rhs)
func $T.CheckedDiv(self, rhs) @P02
  ensures [zero] rhs == 0 ==> isNone(result)
  ensures [exact] rhs != 0 ==> noneOr(result, inT(minof($T), maxof($T), tdiv(self, rhs)), tdiv(self, rhs))
func $T.CheckedRem(self, rhs) @P02
  ensures [zero] rhs == 0 ==> isNone(result)
  ensures [exact] rhs != 0 ==> noneOr(result, inT(minof($T), maxof($T), tdiv(self, rhs)), trem(self, rhs))

func $T.SaturatingAdd(self, rhs) @P03
  ensures [exact] result == clamp(minof($T), maxof($T), self + rhs)
func $T.SaturatingSub(self, rhs) @P03
  ensures [exact] result == clamp(minof($T), maxof($T), self - rhs)
func $T.SaturatingMul(self, rhs) @P03
  ensures [exact] result == clamp(minof($T), maxof($T), self * rhs)
func $T.SaturatingDiv(self, rhs) @P03
  requires [nonzero] rhs != 0
  ensures [exact] result == clamp(minof($T), maxof($T), tdiv(self, rhs))

func $T.Add(self, rhs) @P04
  ensures [exact] result == wrap($T, self + rhs)
func $T.Sub(self, rhs) @P04
  ensures [exact] result == wrap($T, self - rhs)
func $T.Mul(self, rhs) @P04
  ensures [exact] result == wrap($T, self * rhs)
func $T.Div(self, rhs) @P04
  panics_if rhs == 0
  ensures [exact] result == wrap($T, tdiv(self, rhs))
func $T.Rem(self, rhs) @P04
  panics_if rhs == 0
  ensures [exact] result == trem(self, rhs)
func $T.AddAssign(self, rhs) @P04
  modifies *self
  ensures [exact] *self == wrap($T, old(*self) + rhs)
func $T.SubAssign(self, rhs) @P04
  modifies *self
  ensures [exact] *self == wrap($T, old(*self) - rhs)
func $T.MulAssign(self, rhs) @P04
  modifies *self
  ensures [exact] *self == wrap($T, old(*self) * rhs)
func $T.DivAssign(self, rhs) @P04
  panics_if rhs == 0
  modifies *self
  ensures [exact] *self == wrap($T, tdiv(old(*self), rhs))
func $T.RemAssign(self, rhs) @P04
  panics_if rhs == 0
  modifies *self
  ensures [exact] *self == trem(old(*self), rhs)
func $T.AbsDiff(self, rhs) @P04
  ensures [exact] result == abs(self - rhs)
}

foreach T in ISize I8 I16 I32 I64 {
func $T.Neg(self, rhs) @P04
  ensures [exact] result == wrap($T, 0 - self)
func $T.Abs(self) @P04
  ensures [exact] result == wrap($T, abs(self))
func $T.IsPositive(self) @P04
  ensures [exact] result <==> self > 0
func $T.IsNegative(self) @P04
  ensures [exact] result <==> self < 0
}

foreach T in USize U8 U16 U32 U64 {
func $T.Shl(lhs, rhs) @P04
  opt bv
  ensures [exact] result == wrap($T, shl(lhs, rhs))
func $T.Shr(lhs, rhs) @P04
  opt bv
  ensures [exact] result == shr(lhs, rhs)
}

// a negative shift count is a run-time panic, as in Go
foreach T in ISize I8 I16 I32 I64 {
func $T.Shl(lhs, rhs) @P04
  opt bv
  panics_if rhs < 0
  ensures [exact] result == wrap($T, shl(lhs, rhs))
func $T.Shr(lhs, rhs) @P04
  opt bv
  panics_if rhs < 0
  ensures [exact] result == shr(lhs, rhs)
}

// Exponentiation: wpow_T(b, e) is the product of e factors b, reduced into T after every multiplication.
foreach T in ISize I8 I16 I32 I64 USize U8 U16 U32 U64 {
def modulus_$T = maxof($T) - minof($T) + 1
uf mm_$T(int, int): int
axiom mm_def_$T(a: int, x: int) pattern(mm_$T(a, x)): mm_$T(a, x) == wrap($T, a * x)
uf wpow_$T(int, int): int
axiom wpow_zero_$T(b: int) pattern(wpow_$T(b, 0)): wpow_$T(b, 0) == 1
axiom wpow_step_$T(b: int, e: int) pattern(wpow_$T(b, e)): e >= 1 ==> wpow_$T(b, e) == mm_$T(b, wpow_$T(b, e - 1))
lemma wrapcong_$T(x: int, y: int, k: int)
  requires x == y + k * modulus_$T
  ensures wrap($T, x) == wrap($T, y)
lemma mulwrap_$T(a: int, x: int)
  use wrapcong_$T(a * x, a * wrap($T, x), a * ((x - wrap($T, x)) / modulus_$T))
  ensures wrap($T, a * wrap($T, x)) == wrap($T, a * x)
lemma mulassoc_$T(b: int, w: int, x: int, y: int)
  requires x == wrap($T, b * w) && y == wrap($T, b * b)
  use mulwrap_$T(b, b * w)
  use mulwrap_$T(w, b * b)
  use wrapcong_$T(b * (b * w), w * (b * b), 0)
  ensures wrap($T, b * x) == wrap($T, w * y)
lemma mmassoc_$T(b: int, w: int)
  use mulassoc_$T(b, w, mm_$T(b, w), mm_$T(b, b))
  ensures mm_$T(b, mm_$T(b, w)) == mm_$T(w, mm_$T(b, b))
lemma mmcomm_$T(a: int, x: int)
  ensures mm_$T(a, x) == mm_$T(x, a)
lemma wpow_square_$T(b: int, k: int)
  requires k >= 0
  induct k
  use mmassoc_$T(b, wpow_$T(b, 2 * k - 2))
  use mmcomm_$T(mm_$T(b, b), wpow_$T(b, 2 * k - 2))
  ensures wpow_$T(mm_$T(b, b), k) == wpow_$T(b, 2 * k)
func $T.Pow(self, exp) @P04
  measure exp
  use wpow_square_$T(self, exp / 2)
  ensures [exact] result == wpow_$T(self, exp)
}
