// Ordering and equality: Cmp is the sign of the mathematical comparison and Eq agrees with it.
def i128(x) = x.high * 18446744073709551616 + x.low

foreach T in ISize I8 I16 I32 I64 USize U8 U16 U32 U64 Byte Char {
func $T.Cmp(self, rhs) @P07
  opt transparent
  ensures [order] result == sgn(self - rhs)
func $T.Eq(self, rhs) @P07
  opt transparent
  ensures [equal] result <==> self == rhs
}
foreach T in I128 U128 {
func $T.Cmp(self, rhs) @P07
  ensures [order] result == sgn(i128(self) - i128(rhs))
func $T.Eq(self, rhs) @P07
  ensures [equal] result <==> i128(self) == i128(rhs)
}
foreach T in F32 F64 {
func $T.Cmp(self, rhs) @P07
  ensures [less] self < rhs ==> result == -1
  ensures [greater] rhs < self ==> result == 1
  ensures [equal] fp("eq", self, rhs) ==> result == 0
func $T.Eq(self, rhs) @P07
  ensures [equal] result <==> fp("eq", self, rhs)
}
func String.Cmp(self, rhs) @P07
  ensures [less] result == -1 <==> self < rhs
  ensures [greater] result == 1 <==> rhs < self
  ensures [equal] result == 0 <==> self == rhs
  ensures [range] result == -1 || result == 0 || result == 1
  ensures [antisymmetric] result == -call("String.Cmp", rhs, self)
func String.Eq(self, rhs) @P07
  ensures [equal] result <==> self == rhs
func Bool.Cmp(self, rhs) @P07
  ensures [order] result == (if self == rhs then 0 else (if self then 1 else -1))
func Bool.Eq(self, rhs) @P07
  ensures [equal] result <==> (self <==> rhs)

func Pair.Cmp(p, other) @P07
  ensures [lexicographic] result == (if cmp(p.Key, other.Key) == 0 then cmp(p.Value, other.Value) else cmp(p.Key, other.Key))
  ensures [antisymmetric] result == -call("Pair.Cmp", other, p)
func Pair.Eq(p, other) @P07
  ensures [componentwise] result <==> eq(p.Key, other.Key) && eq(p.Value, other.Value)
  ensures [symmetric] result <==> call("Pair.Eq", other, p)

