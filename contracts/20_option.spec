// Option, Result and the if-else expression: case analysis laws. A closure argument is called exactly when the
// case that needs it applies (nullary closures are counted).

def sameOpt(a, b) = (isSome(a) <==> isSome(b)) && (isSome(a) ==> got(a) == got(b))

func Some(value) @P08
  opt transparent
  ensures [some] isSome(result) && got(result) == value
func None() @P08
  opt transparent
  ensures [none] isNone(result)
func Option.IsSome(self) @P08
  opt transparent
  ensures result <==> isSome(self)
func Option.IsNone(self) @P08
  opt transparent
  ensures result <==> isNone(self)
func Option.IsSomeAnd(self, f) @P08
  ensures isNone(*self) ==> !result
  ensures isSome(*self) ==> (result <==> app(f, got(*self)))
func Option.Expect(self, message) @P08
  opt transparent
  panics_if isNone(self)
  ensures result == got(self)
func Option.Unwrap(self) @P08
  opt transparent
  panics_if isNone(self)
  ensures result == got(self)
func Option.UnwrapOr(self, value) @P08
  opt transparent
  ensures isSome(self) ==> result == got(self)
  ensures isNone(self) ==> result == value
func Option.UnwrapOrElse(self, f) @P08
  opt transparent
  modifies calls
  ensures isSome(self) ==> result == got(self) && ncalls(f) == old(ncalls(f))
  ensures isNone(self) ==> result == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
func Option.Map(self, f) @P08
  opt transparent
  ensures isNone(self) ==> isNone(result)
  ensures isSome(self) ==> isSome(result) && got(result) == app(f, got(self))
func Option.MapOr(self, d, f) @P08
  opt transparent
  ensures isNone(self) ==> result == d
  ensures isSome(self) ==> result == app(f, got(self))
func Option.MapOrElse(self, d, f) @P08
  opt transparent
  modifies calls
  ensures isNone(self) ==> result == app(d, old(ncalls(d))) && ncalls(d) == old(ncalls(d)) + 1
  ensures isSome(self) ==> result == app(f, got(self)) && ncalls(d) == old(ncalls(d))
func Option.And(self, optb) @P08
  opt transparent
  ensures isNone(self) ==> isNone(result)
  ensures isSome(self) ==> sameOpt(result, optb)
func Option.AndThen(self, f) @P08
  opt transparent
  ensures isNone(self) ==> isNone(result)
  ensures isSome(self) ==> sameOpt(result, app(f, got(self)))
func Option.Filter(self, p) @P08
  opt transparent
  ensures isNone(self) ==> isNone(result)
  ensures isSome(self) && app(p, got(self)) ==> sameOpt(result, self)
  ensures isSome(self) && !app(p, got(self)) ==> isNone(result)
func Option.Or(self, optb) @P08
  opt transparent
  ensures isSome(self) ==> sameOpt(result, self)
  ensures isNone(self) ==> sameOpt(result, optb)
func Option.OrElse(self, f) @P08
  opt transparent
  modifies calls
  ensures isSome(self) ==> sameOpt(result, self) && ncalls(f) == old(ncalls(f))
  ensures isNone(self) ==> sameOpt(result, app(f, old(ncalls(f)))) && ncalls(f) == old(ncalls(f)) + 1
func Option.Xor(self, optb) @P08
  opt transparent
  ensures isSome(self) && isNone(optb) ==> sameOpt(result, self)
  ensures isNone(self) && isSome(optb) ==> sameOpt(result, optb)
  ensures (isSome(self) <==> isSome(optb)) ==> isNone(result)
func Option.Insert(self, value) @P08
  opt transparent
  modifies *self
  ensures isSome(*self) && got(*self) == value
  ensures result == (*self).value
func Option.GetOrInsert(self, value) @P08
  opt transparent
  modifies *self
  ensures isSome(*self) && result == (*self).value
  ensures old(isNone(*self)) ==> got(*self) == value
  ensures old(isSome(*self)) ==> (*self).value == old((*self).value)
func Option.GetOrInsertWith(self, f) @P08
  opt transparent
  modifies *self, calls
  ensures isSome(*self) && result == (*self).value
  ensures old(isNone(*self)) ==> got(*self) == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
  ensures old(isSome(*self)) ==> (*self).value == old((*self).value) && ncalls(f) == old(ncalls(f))
func Option.Take(self) @P08
  opt transparent
  modifies *self
  ensures isNone(*self)
  ensures old(isNone(*self)) ==> isNone(result)
  ensures old(isSome(*self)) ==> isSome(result) && got(result) == old(got(*self))
func Option.Replace(self, value) @P08
  opt transparent
  modifies *self
  ensures isSome(*self) && got(*self) == value
  ensures old(isNone(*self)) ==> isNone(result)
  ensures old(isSome(*self)) ==> isSome(result) && got(result) == old(got(*self))
func Option.AsRef(self) @P08
  opt transparent
  ensures sameOpt(*result, self)
func Option.Clone(self) @P08
  opt transparent
  ensures isNone(self) ==> isNone(result)
  ensures isSome(self) ==> isSome(result) && got(result) == clone(got(self))
func Option.Eq(self, rhs) @P08
  opt transparent
  ensures isNone(self) && isNone(rhs) ==> result
  ensures isSome(self) && isSome(rhs) ==> (result <==> eq(got(self), got(rhs)))
  ensures !(isSome(self) <==> isSome(rhs)) ==> !result

// ---- Result ----
def isOk(r) = r.ok != nil
def isErr(r) = r.err != nil
def okOf(r) = *(r.ok)
// every Result made by Ok or Err holds exactly one of the two
def wfRes(r) = isOk(r) <==> !isErr(r)
def sameRes(a, b) = (isOk(a) <==> isOk(b)) && (isErr(a) <==> isErr(b)) && (isOk(a) ==> okOf(a) == okOf(b)) && (isErr(a) ==> a.err == b.err)

func Ok(value) @P09
  opt transparent
  ensures isOk(result) && !isErr(result) && okOf(result) == value
func Err(err) @P09
  opt transparent
  requires err != nil
  ensures isErr(result) && !isOk(result) && result.err == err
func Result.IsOk(self) @P09
  opt transparent
  ensures result <==> isOk(self)
func Result.IsErr(self) @P09
  opt transparent
  ensures result <==> isErr(self)
func Result.IsOkAnd(self, p) @P09
  opt transparent
  ensures isOk(self) ==> (result <==> app(p, okOf(self)))
  ensures !isOk(self) ==> !result
func Result.IsErrAnd(self, p) @P09
  opt transparent
  ensures isErr(self) ==> (result <==> app(p, self.err))
  ensures !isErr(self) ==> !result
func Result.Ok(self) @P09
  opt transparent
  ensures isOk(self) ==> isSome(result) && got(result) == okOf(self)
  ensures !isOk(self) ==> isNone(result)
func Result.Err(self) @P09
  opt transparent
  ensures isErr(self) ==> isSome(result) && got(result) == self.err
  ensures !isErr(self) ==> isNone(result)
func Result.Map(self, f) @P09
  opt transparent
  ensures isOk(self) ==> isOk(result) && !isErr(result) && okOf(result) == app(f, okOf(self))
  ensures !isOk(self) ==> sameRes(result, self)
func Result.MapOr(self, d, f) @P09
  opt transparent
  ensures isOk(self) ==> result == app(f, okOf(self))
  ensures !isOk(self) ==> result == d
func Result.MapOrElse(self, d, f) @P09
  opt transparent
  modifies calls
  ensures isOk(self) ==> result == app(f, okOf(self)) && ncalls(d) == old(ncalls(d))
  ensures !isOk(self) ==> result == app(d, old(ncalls(d))) && ncalls(d) == old(ncalls(d)) + 1
func Result.MapErr(self, f) @P09
  opt transparent
  ensures isErr(self) ==> !isOk(result) && result.err == app(f, self.err)
  ensures !isErr(self) ==> sameRes(result, self)
func Result.Expect(self, message) @P09
  opt transparent
  panics_if !isOk(self)
  ensures result == okOf(self)
func Result.Unwrap(self) @P09
  opt transparent
  panics_if !isOk(self)
  ensures result == okOf(self)
func Result.ExpectErr(self, message) @P09
  opt transparent
  panics_if !isErr(self)
  ensures result == self.err
func Result.UnwrapErr(self) @P09
  opt transparent
  panics_if !isErr(self)
  ensures result == self.err
func Result.And(self, res) @P09
  opt transparent
  ensures isOk(self) ==> sameRes(result, res)
  ensures !isOk(self) ==> sameRes(result, self)
func Result.AndThen(self, op) @P09
  opt transparent
  ensures isOk(self) ==> sameRes(result, app(op, okOf(self)))
  ensures !isOk(self) ==> sameRes(result, self)
func Result.Or(self, res) @P09
  opt transparent
  ensures isErr(self) ==> sameRes(result, res)
  ensures !isErr(self) ==> sameRes(result, self)
func Result.OrElse(self, op) @P09
  opt transparent
  ensures isErr(self) ==> sameRes(result, app(op, self.err))
  ensures !isErr(self) ==> sameRes(result, self)
func Result.UnwrapOr(self, d) @P09
  opt transparent
  ensures isOk(self) ==> result == okOf(self)
  ensures !isOk(self) ==> result == d
func Result.UnwrapOrElse(self, f) @P09
  opt transparent
  modifies calls
  ensures isOk(self) ==> result == okOf(self) && ncalls(f) == old(ncalls(f))
  ensures !isOk(self) ==> result == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
func Result.AsRef(self) @P09
  opt transparent
  ensures sameRes(*result, self)
func Result.Clone(self) @P09
  opt transparent
  ensures isOk(self) ==> isOk(result) && !isErr(result) && okOf(result) == clone(okOf(self))
  ensures !isOk(self) ==> sameRes(result, self)
func Result.Eq(self, rhs) @P09
  opt transparent
  requires wfRes(self) && wfRes(rhs)
  ensures isOk(self) && isOk(rhs) ==> (result <==> eq(okOf(self), okOf(rhs)))
  ensures isErr(self) && isErr(rhs) ==> (result <==> self.err == rhs.err)
  ensures !(isOk(self) <==> isOk(rhs)) ==> !result

// ---- if-else expressions ----
func If(condition, f) @P24
  modifies calls
  ensures condition ==> result.returnValue != nil && *(result.returnValue) == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
  ensures !condition ==> result.returnValue == nil && ncalls(f) == old(ncalls(f))
func ifElseContext.ElseIf(self, condition, f) @P24
  modifies calls
  ensures self.returnValue != nil ==> result.returnValue != nil && *(result.returnValue) == *(self.returnValue) && ncalls(f) == old(ncalls(f))
  ensures self.returnValue == nil && condition ==> result.returnValue != nil && *(result.returnValue) == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
  ensures self.returnValue == nil && !condition ==> result.returnValue == nil && ncalls(f) == old(ncalls(f))
func ifElseContext.Else(self, f) @P24
  modifies calls
  ensures self.returnValue != nil ==> result == *(self.returnValue) && ncalls(f) == old(ncalls(f))
  ensures self.returnValue == nil ==> result == app(f, old(ncalls(f))) && ncalls(f) == old(ncalls(f)) + 1
