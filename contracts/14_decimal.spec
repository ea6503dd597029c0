// Decimal text of integers, and the parts of math/big, strconv and encoding/binary that 128-bit division uses.
uf dectext(int): string
uf decval(string): int
axiom decval_dec(n: int) pattern (dectext(n)) : decval(dectext(n)) == n && len(dectext(n)) >= 1
axiom dec_bits() : dectext(0)[0] == 48 && dectext(1)[0] == 49
// big-endian value of n bytes
uf beval(seq[int], int, int): int
axiom beval_split(c: seq[int], o: int) pattern (beval(c, o, 16)) : beval(c, o, 16) == beval(c, o, 8) * 18446744073709551616 + beval(c, o + 8, 8)
axiom beval_range(c: seq[int], o: int) pattern (beval(c, o, 8)) : 0 <= beval(c, o, 8) && beval(c, o, 8) <= 18446744073709551615

ghostfield Int.val: int
func strconv.Itoa(i)
  trusted "strconv"
  ensures result == dectext(i)
func strconv.FormatUint(i, base)
  trusted "strconv"
  requires base == 10
  ensures result == dectext(i)
func big.NewInt(x)
  trusted "math/big"
  ensures result != nil && fresh(result) && result.val == x
func big.Int.SetString(z, s, base)
  trusted "math/big"
  requires base == 10 && z != nil
  modifies *z
  ensures s == dectext(decval(s)) ==> result.0 == z && z.val == decval(s) && result.1
func big.Int.Div(z, x, y)
  trusted "math/big"
  requires z != nil && x != nil && y != nil
  panics_if y.val == 0
  modifies *z
  ensures result == z && z.val == old(x.val) / old(y.val)
func big.Int.Rem(z, x, y)
  trusted "math/big"
  requires z != nil && x != nil && y != nil
  panics_if y.val == 0
  modifies *z
  ensures result == z && z.val == trem(old(x.val), old(y.val))
func big.Int.Add(z, x, y)
  trusted "math/big"
  requires z != nil && x != nil && y != nil
  modifies *z
  ensures result == z && z.val == old(x.val) + old(y.val)
func big.Int.Mul(z, x, y)
  trusted "math/big"
  requires z != nil && x != nil && y != nil
  modifies *z
  ensures result == z && z.val == old(x.val) * old(y.val)
func big.Int.Neg(z, x)
  trusted "math/big"
  requires z != nil && x != nil
  modifies *z
  ensures result == z && z.val == 0 - old(x.val)
func big.Int.String(x)
  trusted "math/big"
  ensures result == dectext(x.val)
func big.Int.FillBytes(x, buf)
  trusted "math/big"
  panics_if abs(x.val) >= 340282366920938463463374607431768211456 && len(buf) <= 16
  requires len(buf) == 16
  modifies backing(buf)
  ensures arr(result) == arr(buf) && off(result) == off(buf) && len(result) == len(buf) && cap(result) == cap(buf)
  ensures beval(content(buf), off(buf), 16) == abs(x.val)
func binary.bigEndian.Uint64(e, b)
  trusted "encoding/binary"
  panics_if len(b) < 8
  ensures result == beval(content(b), off(b), 8)

func U128.Div(lhs, rhs) @P06
  panics_if i128v(rhs) == 0
  ensures [exact] i128v(result) == i128v(lhs) / i128v(rhs)
func U128.Rem(lhs, rhs) @P06
  panics_if i128v(rhs) == 0
  ensures [exact] i128v(result) == i128v(lhs) % i128v(rhs)
func I128.Div(lhs, rhs) @P06
  panics_if i128v(rhs) == 0
  ensures [exact] i128v(result) == wrI128(tdiv(i128v(lhs), i128v(rhs)))
// the sign of the remainder is the one the existing tests fix: negative when exactly one operand is
func I128.Rem(lhs, rhs) @P06
  panics_if i128v(rhs) == 0
  ensures [exact] i128v(result) == (if (i128v(lhs) < 0) == (i128v(rhs) < 0) then 1 else -1) * (abs(i128v(lhs)) % abs(i128v(rhs)))
func U128.DivAssign(self, rhs) @P06
  panics_if i128v(rhs) == 0
  modifies *self
  ensures [exact] i128v(self) == old(i128v(self)) / i128v(rhs)
func U128.RemAssign(self, rhs) @P06
  panics_if i128v(rhs) == 0
  modifies *self
  ensures [exact] i128v(self) == old(i128v(self)) % i128v(rhs)
func I128.DivAssign(self, rhs) @P06
  panics_if i128v(rhs) == 0
  modifies *self
  ensures [exact] i128v(self) == wrI128(tdiv(old(i128v(self)), i128v(rhs)))
func I128.RemAssign(self, rhs) @P06
  panics_if i128v(rhs) == 0
  modifies *self
  ensures [exact] i128v(self) == (if (old(i128v(self)) < 0) == (i128v(rhs) < 0) then 1 else -1) * (abs(old(i128v(self))) % abs(i128v(rhs)))

// value of the last k binary digits of a text
uf tailv(string, int): int
axiom tailv_zero(s: string) pattern (tailv(s, 0)) : tailv(s, 0) == 0
axiom tailv_step(s: string, k: int, m: int) pattern (tailv(s, k), tailv(s, m)) : 0 <= k && m == k + 1 && k < len(s) ==> tailv(s, m) == tailv(s, k) + (if s[len(s) - m] == 49 then p2(k) else 0)
axiom rune_ascii(c: int) pattern (strof(c)) : 0 <= c && c < 128 ==> len(strof(c)) == 1 && strof(c)[0] == c
// c + s has the same last len(s) digits as s
lemma tail_cat(c: string, s: string, k: int)
  requires len(c) == 1 && 0 <= k && k <= len(s)
  induct k
  use 0 < k ==> tail_cat(c, s, k - 1)
  ensures tailv(c + s, k) == tailv(s, k)
// what remains of h above the n digits already taken
uf rest(int, int): int
axiom rest_zero(h: int) pattern (rest(h, 0)) : rest(h, 0) == h
axiom rest_step(h: int, n: int, m: int) pattern (rest(h, n), rest(h, m)) : 0 <= n && m == n + 1 ==> rest(h, m) == 2 * rest(h, n)
lemma rest_small(h: int, n: int) pattern (rest(h, n))
  requires 0 <= n
  induct n
  ensures (h == 0 ==> rest(h, n) == 0) && (h == -1 ==> rest(h, n) == 0 - p2(n))
// one digit less to take from h, one digit more taken
lemma digit_step(h: int, i: int, g: int, m: int) pattern (rest(h, i), rest(g, m))
  requires 0 <= i && m == i + 1 && (h == 2 * g || h == 2 * g + 1)
  induct i
  use 0 < i ==> digit_step(h, i - 1, g, i)
  ensures rest(h, i) == rest(g, m) + (if h == 2 * g then 0 else p2(i))
lemma p2_64()
  use p2_add(1, 0, 1)
  use p2_add(1, 1, 2)
  use p2_add(2, 2, 4)
  use p2_add(4, 4, 8)
  use p2_add(8, 8, 16)
  use p2_add(16, 16, 32)
  use p2_add(32, 32, 64)
  ensures p2(64) == 18446744073709551616
lemma rest_mul(h: int, n: int)
  requires 0 <= n
  induct n
  ensures rest(h, n) == h * p2(n)
lemma rest_64(h: int)
  use rest_mul(h, 64)
  use p2_64()
  ensures rest(h, 64) == h * 18446744073709551616
func _ConvertBinaryStringToDecimalString(binaryString, isNegative) @P06
  dec ?i + 1
  inv -1 <= ?i && ?i < len(binaryString)
  inv ?p.val == p2(len(binaryString) - 1 - ?i)
  inv ?p.val == tailv(binaryString, len(binaryString) - 1 - ?i)
  ensures result == dectext(if isNegative then 0 - tailv(binaryString, len(binaryString)) else tailv(binaryString, len(binaryString)))
lemma tail_push(c: string, s: string, k: int) pattern (tailv(c + s, k))
  requires len(c) == 1 && k == len(s) + 1
  use tail_cat(c, s, k - 1)
  ensures tailv(c + s, k) == tailv(s, len(s)) + (if c[0] == 49 then p2(len(s)) else 0)
func U128.ToString(self) @P06
  inv 0 <= ?i_ && ?i_ <= 64
  inv len(?z_) == ?i_
  inv len(?z_) == 64 + ?i_
  inv tailv(?z_, len(?z_)) + rest(?j_, len(?z_)) == self.low
  inv tailv(?z_, len(?z_)) + rest(?j_, len(?z_)) == self.low + rest(self.high, 64)
  inv ?j_ < p2(64 - ?i_)
  use rest_64(self.high)
  use p2_64()
  use p2_128()
  ensures result == dectext(i128v(self))
func I128.ToString(self) @P06
  inv 0 <= ?i_ && ?i_ <= 64
  inv len(?z_) == ?i_
  inv len(?z_) == 64 + ?i_
  inv tailv(?z_, len(?z_)) + rest(?j_, len(?z_)) == self.low
  inv tailv(?z_, len(?z_)) + rest(?j_, len(?z_)) == self.low + rest(self.high, 64)
  inv ?j_ < p2(64 - ?i_) && 0 - p2(64 - ?i_) <= ?j_
  inv ?j_ < 0 <==> self.high < 0
  use rest_64(self.high)
  use p2_64()
  use p2_128()
  ensures result == dectext(i128v(self))
