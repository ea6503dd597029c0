// Floating point: IEEE 754 operations; elementary functions are those of package math.
func math.Floor(x)
  trusted "math"
  ensures result == fp("floor", x)
func math.Ceil(x)
  trusted "math"
  ensures result == fp("ceil", x)
func math.Trunc(x)
  trusted "math"
  ensures result == fp("trunc", x)
func math.Round(x)
  trusted "math"
  ensures result == fp("round", x)
func math.Abs(x)
  trusted "math"
  ensures result == fp("abs", x)
func math.Sqrt(x)
  trusted "math"
  ensures result == fp("sqrt", x)
func math.Modf(x)
  trusted "math"
  ensures !fp("isInfinite", x) ==> result.0 == fp("trunc", x)
  ensures !fp("isInfinite", x) ==> result.1 == fp("sub", x, fp("trunc", x)) || fp("isZero", result.1) && fp("isZero", fp("sub", x, fp("trunc", x)))
func F32.Floor(self) @P26
  ensures [ieee] result == fp("floor", self)
func F32.Ceil(self) @P26
  ensures [ieee] result == fp("ceil", self)
func F32.Round(self) @P26
  ensures [ieee] result == fp("round", self)
func F32.Trunc(self) @P26
  ensures [ieee] result == fp("trunc", self)
func F32.Abs(self) @P26
  ensures [ieee] result == fp("abs", self)
func F32.Frac(self) @P26
  requires !fp("isInfinite", self)
  ensures [ieee] result == fp("sub", self, fp("trunc", self)) || fp("isZero", result) && fp("isZero", fp("sub", self, fp("trunc", self)))
func F32.Sqrt(self) @P26
  ensures result == fp("to32", fp("sqrt", fp("to64", self)))
func F32.Exp(self) @P26
  ensures result == fp("to32", math(Exp, fp("to64", self)))
func F32.Exp2(self) @P26
  ensures result == fp("to32", math(Exp2, fp("to64", self)))
func F32.Log2(self) @P26
  ensures result == fp("to32", math(Log2, fp("to64", self)))
func F32.Log10(self) @P26
  ensures result == fp("to32", math(Log10, fp("to64", self)))
func F32.Ln(self) @P26
  ensures result == fp("to32", math(Log, fp("to64", self)))
func F32.Log(self, base) @P26
  ensures result == fp("to32", fp("div", math(Log, fp("to64", self)), math(Log, fp("to64", base))))
func F32.Powi(self, n) @P26
  ensures result == fp("to32", math(Pow, fp("to64", self), fp("ofint", n)))
func F32.Powf(self, n) @P26
  ensures result == fp("to32", math(Pow, fp("to64", self), fp("to64", n)))
func F32.Add(self, rhs) @P26
  ensures [ieee] result == fp("add", self, rhs)
func F32.AddAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("add", old(*self), rhs)
func F32.Sub(self, rhs) @P26
  ensures [ieee] result == fp("sub", self, rhs)
func F32.SubAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("sub", old(*self), rhs)
func F32.Mul(self, rhs) @P26
  ensures [ieee] result == fp("mul", self, rhs)
func F32.MulAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("mul", old(*self), rhs)
func F32.Div(self, rhs) @P26
  ensures [ieee] result == fp("div", self, rhs)
func F32.DivAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("div", old(*self), rhs)
func F64.Floor(self) @P26
  ensures [ieee] result == fp("floor", self)
func F64.Ceil(self) @P26
  ensures [ieee] result == fp("ceil", self)
func F64.Round(self) @P26
  ensures [ieee] result == fp("round", self)
func F64.Trunc(self) @P26
  ensures [ieee] result == fp("trunc", self)
func F64.Abs(self) @P26
  ensures [ieee] result == fp("abs", self)
func F64.Frac(self) @P26
  requires !fp("isInfinite", self)
  ensures [ieee] result == fp("sub", self, fp("trunc", self)) || fp("isZero", result) && fp("isZero", fp("sub", self, fp("trunc", self)))
func F64.Sqrt(self) @P26
  ensures result == fp("sqrt", self)
func F64.Exp(self) @P26
  ensures result == math(Exp, self)
func F64.Exp2(self) @P26
  ensures result == math(Exp2, self)
func F64.Log2(self) @P26
  ensures result == math(Log2, self)
func F64.Log10(self) @P26
  ensures result == math(Log10, self)
func F64.Ln(self) @P26
  ensures result == math(Log, self)
func F64.Log(self, base) @P26
  ensures result == fp("div", math(Log, self), math(Log, base))
func F64.Powi(self, n) @P26
  ensures result == math(Pow, self, fp("ofint", n))
func F64.Powf(self, n) @P26
  ensures result == math(Pow, self, n)
func F64.Add(self, rhs) @P26
  ensures [ieee] result == fp("add", self, rhs)
func F64.AddAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("add", old(*self), rhs)
func F64.Sub(self, rhs) @P26
  ensures [ieee] result == fp("sub", self, rhs)
func F64.SubAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("sub", old(*self), rhs)
func F64.Mul(self, rhs) @P26
  ensures [ieee] result == fp("mul", self, rhs)
func F64.MulAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("mul", old(*self), rhs)
func F64.Div(self, rhs) @P26
  ensures [ieee] result == fp("div", self, rhs)
func F64.DivAssign(self, rhs) @P26
  modifies *self
  ensures [ieee] *self == fp("div", old(*self), rhs)
