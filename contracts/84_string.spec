// Strings: bytes, characters, searching. What the standard library computes is assumed here and named.
// occ(s, t, i): t occurs in s at byte i
def occ(s, t, i) = 0 <= i && i + len(t) <= len(s) && s[i : i + len(t)] == t
func strings.Index(s, t)
  trusted "strings"
  ensures result == -1 || occ(s, t, result)
  ensures forall i: int pattern (s[i : i + len(t)]) :: occ(s, t, i) ==> 0 <= result && result <= i
func strings.Contains(s, t)
  trusted "strings"
  ensures result ==> (exists i in 0 .. len(s) + 1 :: occ(s, t, i))
  ensures forall i: int pattern (s[i : i + len(t)]) :: occ(s, t, i) ==> result
uf replaced(string, string, string): string
func strings.Replace(s, old_, new_, n)
  trusted "strings"
  requires n < 0
  ensures result == replaced(s, old_, new_)
func strings.ReplaceAll(s, old_, new_)
  trusted "strings"
  ensures result == replaced(s, old_, new_)
uf trimmed(string): string
func strings.TrimSpace(s)
  trusted "strings"
  ensures result == trimmed(s)
uf lower(string): string
uf upper(string): string
func strings.ToLower(s)
  trusted "strings"
  ensures result == lower(s)
func strings.ToUpper(s)
  trusted "strings"
  ensures result == upper(s)
// n copies of s
uf copies(string, int): string
axiom copies_zero(s: string) pattern (copies(s, 0)) : copies(s, 0) == ""
axiom copies_step(s: string, n: int, m: int) pattern (copies(s, n), copies(s, m)) : 0 <= n && m == n + 1 ==> copies(s, m) == copies(s, n) + s
func strings.Repeat(s, n)
  trusted "strings"
  panics_if n < 0
  ensures result == copies(s, n)
// the parts of s between occurrences of t
uf partcount(string, string): int
uf part(string, string, int): string
func strings.Split(s, t)
  trusted "strings"
  ensures len(result) == partcount(s, t) && fresh(arr(result))
  ensures forall j in 0 .. len(result) :: result[j] == part(s, t, j)
func strings.TrimPrefix(s, p)
  trusted "strings"
  ensures len(p) == 1 ==> result == (if len(s) > 0 && s[0] == p[0] then s[1 : len(s)] else s)
// texts that are numbers: digits only; with an optional sign
uf digits(string): bool
def signed(s) = digits(s) || len(s) > 0 && (s[0] == 43 || s[0] == 45) && digits(s[1 : len(s)])
def intval(s) = if digits(s) then decval(s) else (if s[0] == 45 then 0 - decval(s[1 : len(s)]) else decval(s[1 : len(s)]))
axiom digits_nonempty(s: string) pattern (digits(s)) : digits(s) ==> len(s) > 0 && 48 <= s[0] && s[0] <= 57 && 0 <= decval(s)
func strconv.Atoi(s)
  trusted "strconv"
  ensures result.1 == nil <==> signed(s) && 0 - 9223372036854775808 <= intval(s) && intval(s) <= 9223372036854775807
  ensures result.1 == nil ==> result.0 == intval(s)
func strconv.ParseInt(s, base, bits)
  trusted "strconv"
  requires base == 10 && bits == 64
  ensures result.1 == nil <==> signed(s) && 0 - 9223372036854775808 <= intval(s) && intval(s) <= 9223372036854775807
  ensures result.1 == nil ==> result.0 == intval(s)
func strconv.ParseUint(s, base, bits)
  trusted "strconv"
  requires base == 10 && bits == 64
  ensures result.1 == nil <==> digits(s) && decval(s) <= 18446744073709551615
  ensures result.1 == nil ==> result.0 == decval(s)
func utf8.DecodeLastRuneInString(s)
  trusted "unicode/utf8"
  ensures len(s) == 0 ==> result.0 == 65533 && result.1 == 0
  ensures len(s) > 0 ==> result.0 == runeat(s, runecount(s) - 1) && result.1 == len(s) - runeoff(s, runecount(s) - 1)
func utf8.RuneCountInString(s)
  trusted "unicode/utf8"
  ensures result == runecount(s)
// the text that UTF-16 units stand for, and valid sequences of units
uf text16(seq[int], int, int): string
axiom text16_ext(a: seq[int], o: int, b: seq[int], p: int, n: int) pattern (text16(a, o, n), text16(b, p, n)) :
  (forall j in 0 .. n :: a[o + j] == b[p + j]) ==> text16(a, o, n) == text16(b, p, n)
def hi16(u) = 55296 <= u && u <= 56319
def lo16(u) = 56320 <= u && u <= 57343
func utf16.Decode(s)
  trusted "unicode/utf16"
  ensures fresh(arr(result)) && runestr(content(result), off(result), len(result)) == text16(content(s), off(s), len(s))
func errors.New(s)
  trusted "errors"
  ensures result != nil

func StringFromUTF8(bytes) @P20
  ensures len(result) == len(bytes.data)
  ensures forall j in 0 .. len(result) :: result[j] == bytes.data[j]
func StringFromUTF16(bytes) @P20
  inv forall j in 0 .. len(?s) :: ?s[j] == bytes.data[j]
  inv ?i == len(?s) && 0 <= ?i && ?i <= len(bytes.data)
  inv forall j in 0 .. ?i :: (hi16(bytes.data[j]) ==> j + 1 < len(bytes.data) && lo16(bytes.data[j + 1])) && (lo16(bytes.data[j]) ==> 0 < j && hi16(bytes.data[j - 1]))
  ensures [valid] isOk(result) <==> (forall j in 0 .. len(bytes.data) :: (hi16(bytes.data[j]) ==> j + 1 < len(bytes.data) && lo16(bytes.data[j + 1])) && (lo16(bytes.data[j]) ==> 0 < j && hi16(bytes.data[j - 1])))
  ensures wfRes(result)
  ensures [text] isOk(result) ==> *result.ok == text16(content(bytes.data), off(bytes.data), len(bytes.data))
func String.IntoBytes(self) @P20
  inv forall j in 0 .. len(?s) :: ?s[j] == self[j]
  inv len(?s) == ?i
  ensures len(result.data) == len(self)
  ensures forall j in 0 .. len(self) :: result.data[j] == self[j]
func String.Len(self) @P20
  ensures result == len(self)
func String.IsEmpty(self) @P20
  ensures result <==> len(self) == 0
func String.Push(self, c) @P20
  modifies *self
  ensures *self == old(*self) + strof(c)
  ensures result == *self
func String.Pop(self) @P20
  modifies *self
  ensures [empty] len(old(*self)) == 0 ==> isNone(result) && *self == old(*self)
  ensures [last] len(old(*self)) > 0 ==> isSome(result) && got(result) == runeat(old(*self), runecount(old(*self)) - 1)
  ensures [rest] len(old(*self)) > 0 ==> *self == old(*self)[0 : runeoff(old(*self), runecount(old(*self)) - 1)]
func String.Chars(self) @P20
  inv forall j in 0 .. len(?s) :: ?s[j] == runeat(self, j)
  inv len(?s) == ?i
  ensures len(result.data) == runecount(self)
  ensures forall j in 0 .. runecount(self) :: result.data[j] == runeat(self, j)
func String.Contains(self, str) @P20
  ensures [found] result ==> (exists i in 0 .. len(self) + 1 :: occ(self, str, i))
  ensures [none] forall i: int pattern (self[i : i + len(str)]) :: occ(self, str, i) ==> result
func String.Find(self, str) @P20
  ensures [occurs] isSome(result) ==> occ(self, str, got(result))
  ensures [first] forall i: int pattern (self[i : i + len(str)]) :: occ(self, str, i) ==> isSome(result) && got(result) <= i
func String.Split(self, str) @P20
  inv forall j in 0 .. len(?s) :: ?s[j] == part(self, str, j)
  inv len(?s) == ?i
  ensures len(result.data) == partcount(self, str)
  ensures forall j in 0 .. len(result.data) :: result.data[j] == part(self, str, j)
func String.Trim(self) @P20
  ensures result == trimmed(self)
func String.ParseI64(self) @P20
  ensures [valid] isOk(result) <==> signed(self) && 0 - 9223372036854775808 <= intval(self) && intval(self) <= 9223372036854775807
  ensures wfRes(result)
  ensures [value] isOk(result) ==> *result.ok == intval(self)
func String.ParseU64(self) @P20
  ensures [valid] isOk(result) <==> (digits(self) || len(self) > 0 && self[0] == 43 && digits(self[1 : len(self)])) && intval(self) <= 18446744073709551615
  ensures wfRes(result)
  ensures [value] isOk(result) ==> *result.ok == intval(self)
uf isfloat(string): bool
uf floatval(string): float64
func strconv.ParseFloat(s, bits)
  trusted "strconv"
  requires bits == 64
  ensures result.1 == nil <==> isfloat(s)
  ensures result.1 == nil ==> fp("eq", result.0, floatval(s)) || result.0 == floatval(s)
func String.ParseF64(self) @P20
  ensures [valid] isOk(result) <==> isfloat(self)
  ensures wfRes(result)
  ensures [value] isOk(result) ==> fp("eq", *result.ok, floatval(self)) || *result.ok == floatval(self)
func String.Replace(self, from, to) @P20
  ensures result == replaced(self, from, to)
func String.ToLowercase(self) @P20
  ensures result == lower(self)
func String.ToUppercase(self) @P20
  ensures result == upper(self)
func String.Repeat(self, n) @P20
  requires n < 9223372036854775808
  ensures result == copies(self, n)
