// Vec: a growable array. The contents are the elements of the slice, in order.

// number of the first n elements at off.. that satisfy f
uf kept[E](pred[E], seq[E], int, int): int
axiom kept_zero[E] of kept (f: pred[E], a: seq[E], o: int) pattern (kept(f, a, o, 0)) : kept(f, a, o, 0) == 0
axiom kept_step[E] of kept (f: pred[E], a: seq[E], o: int, n: int, m: int) pattern (kept(f, a, o, n), kept(f, a, o, m)) :
  m == n + 1 && 0 <= n ==> kept(f, a, o, m) == kept(f, a, o, n) + (if app(f, a[o + n]) then 1 else 0)

func VecNew() @P10
  opt transparent
  ensures len(result.data) == 0
func VecWithCapacity(capacity) @P10
  opt transparent
  requires capacity <= 281474976710656
  ensures len(result.data) == 0 && cap(result.data) >= capacity
func VecWithLen(len) @P10
  opt transparent
  requires len <= 281474976710656
  ensures len(result.data) == len
  ensures forall j in 0 .. len :: result.data[j] == zero(T)
func Vec.Capacity(self) @P10
  ensures result == cap(self.data)
func Vec.Len(self) @P10
  opt transparent
  ensures result == len(self.data)
func Vec.IsEmpty(self) @P10
  opt transparent
  ensures result <==> len(self.data) == 0
func Vec.Reserve(self, additional) @P10
  requires additional <= 281474976710656
  modifies *self
  ensures cap(self.data) >= old(len(self.data)) + additional
  ensures len(self.data) == old(len(self.data))
  ensures forall j in 0 .. len(self.data) :: self.data[j] == old(self.data[j])
func Vec.Push(self, value) @P10
  modifies *self, backing(self.data)
  ensures len(self.data) == old(len(self.data)) + 1
  ensures self.data[old(len(self.data))] == value
  ensures forall j in 0 .. old(len(self.data)) :: self.data[j] == old(self.data[j])
  ensures arr(self.data) == old(arr(self.data)) || fresh(arr(self.data))
func Vec.Pop(self) @P10
  modifies *self
  ensures old(len(self.data)) == 0 ==> isNone(result) && len(self.data) == 0
  ensures old(len(self.data)) > 0 ==> isSome(result) && got(result) == old(self.data[len(self.data) - 1]) && len(self.data) == old(len(self.data)) - 1
  ensures forall j in 0 .. len(self.data) :: self.data[j] == old(self.data[j])
func Vec.Insert(self, index, value) @P10
  modifies *self, backing(self.data)
  panics_if index > len(self.data)
  ensures len(self.data) == old(len(self.data)) + 1
  ensures forall j in 0 .. index :: self.data[j] == old(self.data[j])
  ensures self.data[index] == value
  ensures forall j in index + 1 .. old(len(self.data)) + 1 :: self.data[j] == old(self.data[j - 1])
func Vec.Append(self, other) @P10
  modifies *self, *other, backing(self.data)
  requires other != nil && ref(self) != ref(other)
  ensures len(self.data) == old(len(self.data)) + old(len(other.data))
  ensures forall j in 0 .. old(len(self.data)) :: self.data[j] == old(self.data[j])
  ensures forall j in 0 .. old(len(other.data)) :: self.data[old(len(self.data)) + j] == old(other.data[j])
  ensures forall j in old(len(self.data)) .. old(len(self.data)) + old(len(other.data)) :: self.data[j] == old(other.data[j - len(self.data)])
  ensures len(other.data) == 0
  ensures arr(self.data) == old(arr(self.data)) || fresh(arr(self.data))
func Vec.Clear(self) @P10
  modifies *self
  ensures len(self.data) == 0
func Vec.AsSlice(self) @P10
  opt transparent
  ensures result == self.data
func Vec.Retain(self, predicate) @P10
  modifies *self
  inv forall j in 0 .. ?i :: app(predicate, old(self.data[j])) ==> ?s[kept(predicate, old(content(self.data)), old(off(self.data)), j)] == old(self.data[j]) && kept(predicate, old(content(self.data)), old(off(self.data)), j) < len(?s)
  inv len(?s) == kept(predicate, old(content(self.data)), old(off(self.data)), ?i)
  ensures len(self.data) == kept(predicate, old(content(self.data)), old(off(self.data)), old(len(self.data)))
  ensures forall j in 0 .. old(len(self.data)) :: app(predicate, old(self.data[j])) ==> self.data[kept(predicate, old(content(self.data)), old(off(self.data)), j)] == old(self.data[j])

// number of the first n elements that differ (by key, by reflect.DeepEqual) from the one before them
uf runsk[E](keyf[E], seq[E], int, int): int
axiom runsk_zero[E] of runsk (f: keyf[E], a: seq[E], o: int) pattern (runsk(f, a, o, 0)) : runsk(f, a, o, 0) == 0
axiom runsk_step[E] of runsk (f: keyf[E], a: seq[E], o: int, n: int, m: int) pattern (runsk(f, a, o, n), runsk(f, a, o, m)) :
  m == n + 1 && 0 <= n ==> runsk(f, a, o, m) == runsk(f, a, o, n) + (if n == 0 || app(f, a[o + n]) != app(f, a[o + n - 1]) then 1 else 0)
uf runs[E](seq[E], int, int): int
axiom runs_zero[E] of runs (a: seq[E], o: int) pattern (runs(a, o, 0)) : runs(a, o, 0) == 0
axiom runs_step[E] of runs (a: seq[E], o: int, n: int, m: int) pattern (runs(a, o, n), runs(a, o, m)) :
  m == n + 1 && 0 <= n ==> runs(a, o, m) == runs(a, o, n) + (if n == 0 || !deepeq(a[o + n], a[o + n - 1]) then 1 else 0)

func Vec.DedupByKey(self, key) @P10
  modifies *self
  let A = old(content(self.data))
  let O = old(off(self.data))
  inv forall j in 0 .. ?i :: (j == 0 || app(key, old(self.data[j])) != app(key, old(self.data[j - 1]))) ==> ?s[runsk(key, A, O, j)] == old(self.data[j]) && runsk(key, A, O, j) < len(?s)
  inv len(?s) == runsk(key, A, O, ?i)
  ensures len(self.data) == runsk(key, A, O, old(len(self.data)))
  ensures forall j in 0 .. old(len(self.data)) :: (j == 0 || app(key, old(self.data[j])) != app(key, old(self.data[j - 1]))) ==> self.data[runsk(key, A, O, j)] == old(self.data[j])
func Vec.Dedup(self) @P10
  modifies *self, backing(self.data)
  let A = old(content(self.data))
  let O = old(off(self.data))
  inv 0 <= ?i && ?i < ?j && ?j <= len(self.data)
  inv ?i + 1 == runs(A, O, ?j)
  inv forall j in 0 .. ?j :: (j == 0 || !deepeq(old(self.data[j]), old(self.data[j - 1]))) ==> self.data[runs(A, O, j)] == old(self.data[j]) && runs(A, O, j) <= ?i
  inv forall j in ?j .. len(self.data) :: self.data[j] == old(self.data[j])
  inv self.data[?i] == old(self.data[?j - 1]) || deepeq(self.data[?i], old(self.data[?j - 1]))
  ensures len(self.data) == runs(A, O, old(len(self.data)))
  ensures forall j in 0 .. old(len(self.data)) :: (j == 0 || !deepeq(old(self.data[j]), old(self.data[j - 1]))) ==> self.data[runs(A, O, j)] == old(self.data[j])
func Vec.Get(self, index) @P10
  opt transparent
  ensures index >= len(self.data) ==> isNone(result)
  ensures index < len(self.data) ==> isSome(result) && got(result) == self.data[index]
func Vec.GetUnchecked(self, index) @P10
  opt transparent
  panics_if index >= len(self.data)
  ensures result == self.data[index]
func Vec.Set(self, index, value) @P10
  requires index < len(self.data)
  modifies backing(self.data)
  ensures forall j in 0 .. len(self.data) :: self.data[j] == (if j == index then value else old(self.data[j]))
  ensures isNone(result)
func Vec.SetUnchecked(self, index, value) @P10
  opt transparent
  panics_if index >= len(self.data)
  modifies backing(self.data)
  ensures forall j in 0 .. len(self.data) :: self.data[j] == (if j == index then value else old(self.data[j]))
func Vec.Swap(self, a, b) @P10
  panics_if a >= len(self.data) || b >= len(self.data)
  modifies backing(self.data)
  ensures forall j in 0 .. len(self.data) :: self.data[j] == old(self.data[if j == a then b else (if j == b then a else j)])
func Vec.Reverse(self) @P10
  modifies backing(self.data)
  inv forall j in 0 .. len(self.data) :: self.data[j] == (if j < ?i || j >= len(self.data) - ?i then old(self.data[len(self.data) - 1 - j]) else old(self.data[j]))
  ensures forall j in 0 .. len(self.data) :: self.data[j] == old(self.data[len(self.data) - 1 - j])
func Vec.Contains(self, value) @P10
  inv forall j in 0 .. ?i :: !deepeq(self.data[j], value)
  ensures result <==> (exists j in 0 .. len(self.data) :: deepeq(self.data[j], value))
func Vec.Fill(self, value) @P10
  modifies backing(self.data)
  inv forall j in 0 .. ?i :: self.data[j] == value
  ensures forall j in 0 .. len(self.data) :: self.data[j] == value
func Vec.FillWith(self, f) @P10
  modifies backing(self.data), calls
  inv forall j in 0 .. ?i :: self.data[j] == app(f, old(ncalls(f)) + j)
  inv ncalls(f) == old(ncalls(f)) + ?i
  ensures forall j in 0 .. len(self.data) :: self.data[j] == app(f, old(ncalls(f)) + j)
  ensures ncalls(f) == old(ncalls(f)) + len(self.data)
func Vec.AsRef(self) @P10
  ensures (*result).data == self.data
func Vec.Clone(self) @P22
  inv forall j in 0 .. ?i :: ?s[j] == clone(self.data[j])
  ensures len(result.data) == len(self.data)
  ensures forall j in 0 .. len(self.data) :: result.data[j] == clone(self.data[j])
  ensures fresh(arr(result.data))
func Vec.Eq(self, other) @P22
  inv forall j in 0 .. ?i :: eq(self.data[j], other.data[j])
  ensures result <==> len(self.data) == len(other.data) && (forall j in 0 .. len(self.data) :: eq(self.data[j], other.data[j]))

// ---- searching and sorting ----
func Vec.BinarySearch(self, value) @P18
  requires forall i, j in 0 .. len(self.data) :: i <= j ==> cmp(self.data[i], self.data[j]) <= 0
  inv forall j in 0 .. ?i :: cmp(self.data[j], value) < 0
  inv forall j in ?i .. len(self.data) :: cmp(self.data[j], value) > 0
  ensures isSome(result) ==> got(result) < len(self.data) && cmp(self.data[got(result)], value) == 0
  ensures isNone(result) ==> (forall j in 0 .. len(self.data) :: cmp(self.data[j], value) != 0)
func Vec.BinarySearchBy(self, f) @P18
  requires forall i, j in 0 .. len(self.data) :: i <= j ==> app(f, self.data[i]) <= app(f, self.data[j])
  inv forall j in 0 .. ?i :: app(f, self.data[j]) < 0
  inv forall j in ?i .. len(self.data) :: app(f, self.data[j]) > 0
  ensures isSome(result) ==> got(result) < len(self.data) && app(f, self.data[got(result)]) == 0
  ensures isNone(result) ==> (forall j in 0 .. len(self.data) :: app(f, self.data[j]) != 0)

foreach M, S in Sort:stably SortUnstable:permd {
func Vec.$M(self) @P18
  modifies backing(self.data)
  ensures [ordered] forall i, j in 0 .. len(self.data) :: i <= j ==> cmp(self.data[i], self.data[j]) <= 0
  ensures [permutation] permd(content(self.data), off(self.data), old(content(self.data)), old(off(self.data)), len(self.data)) && $S(content(self.data), off(self.data), old(content(self.data)), old(off(self.data)), len(self.data))
func Vec.$MBy(self, compare) @P18
  requires [order] forall a: T, b: T pattern (app(compare, a, b)) :: app(compare, a, b) == -app(compare, b, a) && app(compare, a, b) <= 1
  requires [order] forall a: T, b: T, c: T pattern (app(compare, a, b), app(compare, b, c)) :: app(compare, a, b) <= 0 && app(compare, b, c) <= 0 ==> app(compare, a, c) <= 0
  modifies backing(self.data)
  ensures [ordered] forall i, j in 0 .. len(self.data) :: i <= j ==> app(compare, self.data[i], self.data[j]) <= 0
  ensures [permutation] permd(content(self.data), off(self.data), old(content(self.data)), old(off(self.data)), len(self.data)) && $S(content(self.data), off(self.data), old(content(self.data)), old(off(self.data)), len(self.data))
}
