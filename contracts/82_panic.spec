// Formatting: "{}" stands for the display text of the next parameter, "{{" and "}}" for one brace.
func utf8.DecodeRuneInString(s)
  trusted "unicode/utf8"
  ensures len(s) == 0 ==> result.0 == 65533 && result.1 == 0
  ensures len(s) > 0 ==> result.0 == runeat(s, 0) && result.1 == runeoff(s, 1)

// fout(f, i, p, o, k): what the format f means from its i-th character on, the next parameter being p[o + k]
uf fout(string, int, seq[any], int, int): string
axiom fout_end(f: string, i: int, p: seq[any], o: int, k: int) pattern (fout(f, i, p, o, k)) : i >= runecount(f) ==> fout(f, i, p, o, k) == ""
axiom fout_open(f: string, i: int, p: seq[any], o: int, k: int) pattern (fout(f, i, p, o, k)) :
  0 <= i && i + 1 < runecount(f) && runeat(f, i) == 123 && runeat(f, i + 1) == 123 ==> fout(f, i, p, o, k) == "{" + fout(f, i + 2, p, o, k)
axiom fout_arg(f: string, i: int, p: seq[any], o: int, k: int) pattern (fout(f, i, p, o, k)) :
  0 <= i && i + 1 < runecount(f) && runeat(f, i) == 123 && runeat(f, i + 1) == 125 ==> fout(f, i, p, o, k) == display(p[o + k]) + fout(f, i + 2, p, o, k + 1)
axiom fout_close(f: string, i: int, p: seq[any], o: int, k: int) pattern (fout(f, i, p, o, k)) :
  0 <= i && i + 1 < runecount(f) && runeat(f, i) == 125 && runeat(f, i + 1) == 125 ==> fout(f, i, p, o, k) == "}" + fout(f, i + 2, p, o, k)
axiom fout_plain(f: string, i: int, p: seq[any], o: int, k: int) pattern (fout(f, i, p, o, k)) :
  0 <= i && i < runecount(f) && runeat(f, i) != 123 && runeat(f, i) != 125 ==> fout(f, i, p, o, k) == strof(runeat(f, i)) + fout(f, i + 1, p, o, k)
// fwf(f, i, k): from its i-th character on, every brace is part of "{}", "{{" or "}}", and "{}" occurs k times
uf fwf(string, int, int): bool
axiom fwf_end(f: string, i: int, k: int) pattern (fwf(f, i, k)) : fwf(f, i, k) && i >= runecount(f) ==> k == 0
axiom fwf_neg(f: string, i: int, k: int) pattern (fwf(f, i, k)) : fwf(f, i, k) ==> k >= 0
axiom fwf_brace(f: string, i: int, k: int) pattern (fwf(f, i, k)) : fwf(f, i, k) && 0 <= i && i < runecount(f) && (runeat(f, i) == 123 || runeat(f, i) == 125) ==>
  i + 1 < runecount(f) && (runeat(f, i + 1) == 125 || runeat(f, i) == 123 && runeat(f, i + 1) == 123) && (if runeat(f, i) == 123 && runeat(f, i + 1) == 125 then k > 0 && fwf(f, i + 2, k - 1) else fwf(f, i + 2, k))
axiom fwf_plain(f: string, i: int, k: int) pattern (fwf(f, i, k)) : fwf(f, i, k) && 0 <= i && i < runecount(f) && runeat(f, i) != 123 && runeat(f, i) != 125 ==> fwf(f, i + 1, k)

func Format(format, params) @P21
  requires [wellformed] fwf(format, 0, len(params))
  requires forall j in 0 .. len(params) :: params[j] != nil && implements(Display, params[j])
  inv runecount(format) + len(?s) == runecount(old(format))
  inv forall j in 0 .. runecount(format) :: runeat(format, j) == runeat(old(format), len(?s) + j)
  inv len(?s) == runecount(old(format))
  inv forall j in 0 .. len(?s) :: ?s[j] == runeat(old(format), j)
  inv !(?b && ?c)
  inv ?b ==> ?i >= 1 && runeat(old(format), ?i - 1) == 123
  inv ?b ==> ?i >= 1 && runeat(old(format), ?i - 1) == 125
  inv ?k_ >= 0 && fwf(old(format), ?i - (if ?b || ?c then 1 else 0), len(params) - ?k_)
  inv ?z_ + fout(old(format), ?i - (if ?b || ?c then 1 else 0), content(params), off(params), ?k_) == fout(old(format), 0, content(params), off(params), 0)
  ensures [text] result == fout(format, 0, content(params), off(params), 0)

// integers are shown in decimal
func ISize.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func ISize.Display(self) @P21
  ensures [decimal] result == dectext(self)
func I8.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func I8.Display(self) @P21
  ensures [decimal] result == dectext(self)
func I16.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func I16.Display(self) @P21
  ensures [decimal] result == dectext(self)
func I32.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func I32.Display(self) @P21
  ensures [decimal] result == dectext(self)
func I64.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func I64.Display(self) @P21
  ensures [decimal] result == dectext(self)
func USize.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func USize.Display(self) @P21
  ensures [decimal] result == dectext(self)
func U8.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func U8.Display(self) @P21
  ensures [decimal] result == dectext(self)
func U16.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func U16.Display(self) @P21
  ensures [decimal] result == dectext(self)
func U32.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func U32.Display(self) @P21
  ensures [decimal] result == dectext(self)
func U64.ToString(self) @P21
  ensures [decimal] result == dectext(self)
func U64.Display(self) @P21
  ensures [decimal] result == dectext(self)
// truth values and texts
func strconv.FormatBool(b)
  trusted "strconv"
  ensures result == (if b then "true" else "false")
func Bool.ToString(self) @P21
  ensures result == (if self then "true" else "false")
func Bool.Display(self) @P21
  ensures result == (if self then "true" else "false")
func String.ToString(self) @P21
  ensures result == self
func String.Display(self) @P21
  ensures result == self

func Vec.Display(self) @P21
  inv ?z_ == "Vec[" + joined(content(self.data), off(self.data), ?i) + (if 0 < ?i && ?i < len(self.data) then ", " else "")
  inv ?i <= len(self.data)
  ensures result == "Vec[" + joined(content(self.data), off(self.data), len(self.data)) + "]"
func VecDeque.Display(self) @P21
  requires dqwf(self)
  inv ?z_ == "VecDeque[" + joined(dqseq(self), 0, ?i) + (if 0 < ?i && ?i < self.len then ", " else "")
  inv ?i <= self.len
  ensures result == "VecDeque[" + joined(dqseq(self), 0, self.len) + "]"
func Option.Display(self) @P21
  ensures result == (if ref(self.value) == 0 then "None" else "Some(" + display(*self.value) + ")")
func Result.Display(self) @P21
  requires ref(self.ok) != 0
  ensures result == "Ok(" + display(*self.ok) + ")"

// assertions: they panic exactly when they do not hold
func Assert(condition, args) @P21
  opt lax:Format
  panics_if !condition
func AssertEq(lhs, rhs, args) @P21
  opt lax:Format
  panics_if !eq(lhs, rhs)
func AssertNe(lhs, rhs, args) @P21
  opt lax:Format
  panics_if eq(lhs, rhs)
func Panic(message, args) @P21
  opt lax:Format
  panics_if true
func Unimplemented(messages) @P21
  panics_if true
func Unreachable(messages) @P21
  panics_if true
func Todo(messages) @P21
  panics_if true
