// VecDeque: a ring buffer. Its contents are the len elements that start at head and wrap around.
uf ring[E](seq[E], int, int, int, int): E
axiom ring_def[E] of ring (a: seq[E], o: int, h: int, c: int, j: int) pattern (ring(a, o, h, c, j)) :
  ring(a, o, h, c, j) == a[o + (if h + j >= c then h + j - c else h + j)]
def dq(d, j) = ring(content(d.buffer), off(d.buffer), d.head, len(d.buffer), j)
def dqwf(d) = len(d.buffer) >= 1 && d.head < len(d.buffer) && d.len <= len(d.buffer)
def dqsame(d, e) = forall j in 0 .. e.len :: dq(d, j) == dq(e, j)

func VecDequeNew() @P11
  ensures dqwf(result) && result.len == 0
func VecDequeWithCapacity(capacity) @P11
  requires capacity <= 281474976710656
  ensures dqwf(result) && result.len == 0 && len(result.buffer) >= capacity
  ensures fresh(arr(result.buffer))
func VecDequeWithLen(len) @P11
  requires len <= 281474976710656
  ensures dqwf(result) && result.len == len
func VecDeque.Len(self) @P11
  opt transparent
  ensures result == self.len
func VecDeque.IsEmpty(self) @P11
  opt transparent
  ensures result <==> self.len == 0
func VecDeque.Capacity(self) @P11
  opt transparent
  ensures result == len(self.buffer)
func VecDeque.Reserve(self, additional) @P11
  requires dqwf(self) && additional <= 281474976710656
  modifies *self
  ensures dqwf(self) && self.len == old(self.len)
  ensures len(self.buffer) >= self.len + additional
  ensures arr(self.buffer) == old(arr(self.buffer)) || fresh(arr(self.buffer))
  ensures forall j in 0 .. self.len :: dq(self, j) == old(dq(self, j))
func VecDeque._Grow(self) @P11
  requires dqwf(self) && self.len == len(self.buffer)
  modifies *self
  ensures dqwf(self) && self.len == old(self.len) && self.len < len(self.buffer)
  ensures fresh(arr(self.buffer))
  ensures forall j in 0 .. self.len :: dq(self, j) == old(dq(self, j))
func VecDeque.PushFront(self, value) @P11
  requires dqwf(self)
  modifies *self, backing(self.buffer)
  ensures dqwf(self) && self.len == old(self.len) + 1
  ensures dq(self, 0) == value
  ensures forall j in 1 .. self.len :: dq(self, j) == old(dq(self, j - 1))
  ensures arr(self.buffer) == old(arr(self.buffer)) || fresh(arr(self.buffer))
func VecDeque.PushBack(self, value) @P11
  requires dqwf(self)
  modifies *self, backing(self.buffer)
  ensures dqwf(self) && self.len == old(self.len) + 1
  ensures dq(self, old(self.len)) == value
  ensures forall j in 0 .. old(self.len) :: dq(self, j) == old(dq(self, j))
  ensures arr(self.buffer) == old(arr(self.buffer)) || fresh(arr(self.buffer))
func VecDeque.PopFront(self) @P11
  requires dqwf(self)
  modifies *self
  ensures dqwf(self)
  ensures old(self.len) == 0 ==> isNone(result) && self.len == 0
  ensures old(self.len) > 0 ==> isSome(result) && got(result) == old(dq(self, 0)) && self.len == old(self.len) - 1
  ensures forall j in 0 .. self.len :: dq(self, j) == old(dq(self, j + 1))
func VecDeque.PopBack(self) @P11
  requires dqwf(self)
  modifies *self
  ensures dqwf(self)
  ensures old(self.len) == 0 ==> isNone(result) && self.len == 0
  ensures old(self.len) > 0 ==> isSome(result) && got(result) == old(dq(self, self.len - 1)) && self.len == old(self.len) - 1
  ensures forall j in 0 .. self.len :: dq(self, j) == old(dq(self, j))
func VecDeque.Append(self, other) @P11
  requires other != nil && ref(self) != ref(other) && dqwf(self) && dqwf(other)
  requires arr(self.buffer) != arr(other.buffer)
  modifies *self, *other, backing(self.buffer)
  inv dqwf(self) && self.len == old(self.len) + ?i
  inv arr(self.buffer) == old(arr(self.buffer)) || fresh(arr(self.buffer))
  inv forall j in 0 .. old(self.len) :: dq(self, j) == old(dq(self, j))
  inv forall j in old(self.len) .. old(self.len) + ?i :: dq(self, j) == old(dq(other, j - self.len))
  ensures dqwf(self) && dqwf(other)
  ensures self.len == old(self.len) + old(other.len) && other.len == 0
  ensures forall j in 0 .. old(self.len) :: dq(self, j) == old(dq(self, j))
  ensures forall j in old(self.len) .. self.len :: dq(self, j) == old(dq(other, j - self.len))
func VecDeque.Swap(self, a, b) @P11
  requires dqwf(self) && a < self.len && b < self.len
  modifies backing(self.buffer)
  ensures forall j in 0 .. self.len :: dq(self, j) == old(dq(self, if j == a then b else (if j == b then a else j)))
func VecDeque.Get(self, index) @P11
  requires dqwf(self)
  ensures index >= self.len ==> isNone(result)
  ensures index < self.len ==> isSome(result) && got(result) == dq(self, index)
func VecDeque.GetUnchecked(self, index) @P11
  requires dqwf(self) && index < self.len
  ensures result == dq(self, index)
func VecDeque.Set(self, index, value) @P11
  requires dqwf(self)
  modifies backing(self.buffer)
  ensures index >= self.len ==> isSome(result) && got(result) == value
  ensures index < self.len ==> isNone(result)
  ensures forall j in 0 .. self.len :: dq(self, j) == (if j == index then value else old(dq(self, j)))
func VecDeque.SetUnchecked(self, index, value) @P11
  requires dqwf(self) && index < self.len
  modifies backing(self.buffer)
  ensures forall j in 0 .. self.len :: dq(self, j) == (if j == index then value else old(dq(self, j)))
func VecDeque.Back(self) @P11
  requires dqwf(self)
  ensures self.len == 0 ==> isNone(result)
  ensures self.len > 0 ==> isSome(result) && got(result) == dq(self, self.len - 1)
func VecDeque.Front(self) @P11
  requires dqwf(self)
  ensures self.len == 0 ==> isNone(result)
  ensures self.len > 0 ==> isSome(result) && got(result) == dq(self, 0)
func VecDeque.Clear(self) @P11
  modifies *self
  ensures dqwf(self) && self.len == 0
func VecDeque._MakeContiguous(self) @P11
  requires dqwf(self)
  modifies *self
  inv forall j in 0 .. ?i :: ?s[j] == dq(self, j)
  ensures self.head == 0 && self.len == old(self.len) && len(self.buffer) == old(len(self.buffer))
  ensures forall j in 0 .. self.len :: self.buffer[j] == old(dq(self, j))
  ensures old(self.head) == 0 ==> arr(self.buffer) == old(arr(self.buffer)) && off(self.buffer) == old(off(self.buffer))
  ensures old(self.head) != 0 ==> fresh(arr(self.buffer))
func VecDeque.AsSlice(self) @P11
  requires dqwf(self)
  ensures len(result) == self.len
  ensures forall j in 0 .. self.len :: result[j] == dq(self, j)
func VecDeque.Contains(self, value) @P11
  requires dqwf(self)
  inv forall j in 0 .. ?i :: !eq(value, dq(self, j))
  ensures result <==> (exists j in 0 .. self.len :: eq(value, dq(self, j)))
func VecDeque.Fill(self, value) @P11
  requires dqwf(self)
  modifies backing(self.buffer)
  inv forall j in 0 .. ?i :: dq(self, j) == value
  ensures forall j in 0 .. self.len :: dq(self, j) == value
func VecDeque.FillWith(self, f) @P11
  requires dqwf(self)
  modifies backing(self.buffer), calls
  inv forall j in 0 .. ?i :: dq(self, j) == app(f, old(ncalls(f)) + j)
  inv ncalls(f) == old(ncalls(f)) + ?i
  ensures forall j in 0 .. self.len :: dq(self, j) == app(f, old(ncalls(f)) + j)
  ensures ncalls(f) == old(ncalls(f)) + self.len

// the kept elements of a ring, counted
uf dkept[E](pred[E], seq[E], int, int, int, int): int
axiom dkept_zero[E] of dkept (f: pred[E], a: seq[E], o: int, h: int, c: int) pattern (dkept(f, a, o, h, c, 0)) : dkept(f, a, o, h, c, 0) == 0
axiom dkept_step[E] of dkept (f: pred[E], a: seq[E], o: int, h: int, c: int, n: int, m: int) pattern (dkept(f, a, o, h, c, n), dkept(f, a, o, h, c, m)) :
  m == n + 1 && 0 <= n ==> dkept(f, a, o, h, c, m) == dkept(f, a, o, h, c, n) + (if app(f, ring(a, o, h, c, n)) then 1 else 0)
def dqkept(f, d, n) = dkept(f, content(d.buffer), off(d.buffer), d.head, len(d.buffer), n)
func VecDeque.Retain(self, f) @P11
  requires dqwf(self)
  modifies *self, backing(self.buffer)
  inv 0 <= ?i && ?i <= ?j && ?j <= self.len
  inv ?i == old(dqkept(f, self, ?j))
  inv forall j in 0 .. ?j :: app(f, old(dq(self, j))) ==> 0 <= old(dqkept(f, self, j)) && old(dqkept(f, self, j)) < ?i && dq(self, old(dqkept(f, self, j))) == old(dq(self, j))
  inv forall j in ?j .. self.len :: dq(self, j) == old(dq(self, j))
  ensures dqwf(self) && self.len == old(dqkept(f, self, self.len))
  ensures forall j in 0 .. old(self.len) :: app(f, old(dq(self, j))) ==> dq(self, old(dqkept(f, self, j))) == old(dq(self, j))

uf druns[E](seq[E], int, int, int, int): int
axiom druns_zero[E] of druns (a: seq[E], o: int, h: int, c: int) pattern (druns(a, o, h, c, 0)) : druns(a, o, h, c, 0) == 0
axiom druns_step[E] of druns (a: seq[E], o: int, h: int, c: int, n: int, m: int) pattern (druns(a, o, h, c, n), druns(a, o, h, c, m)) :
  m == n + 1 && 0 <= n ==> druns(a, o, h, c, m) == druns(a, o, h, c, n) + (if n == 0 || !eq(ring(a, o, h, c, n), ring(a, o, h, c, n - 1)) then 1 else 0)
def dqruns(d, n) = druns(content(d.buffer), off(d.buffer), d.head, len(d.buffer), n)
func VecDeque.Dedup(self, key) @P11
  requires dqwf(self)
  modifies *self, backing(self.buffer)
  inv 0 < ?i && ?i <= ?j && ?j <= self.len
  inv ?i == old(dqruns(self, ?j))
  inv forall j in 0 .. ?j :: (j == 0 || !eq(old(dq(self, j)), old(dq(self, j - 1)))) ==> 0 <= old(dqruns(self, j)) && old(dqruns(self, j)) < ?i && dq(self, old(dqruns(self, j))) == old(dq(self, j))
  inv forall j in ?j .. self.len :: dq(self, j) == old(dq(self, j))
  inv eq(dq(self, ?i - 1), old(dq(self, ?j - 1)))
  ensures dqwf(self) && self.len == old(dqruns(self, self.len))
  ensures forall j in 0 .. old(self.len) :: (j == 0 || !eq(old(dq(self, j)), old(dq(self, j - 1)))) ==> dq(self, old(dqruns(self, j))) == old(dq(self, j))

func VecDeque.AsRef(self) @P11
  ensures (*result).buffer == self.buffer && (*result).len == self.len && (*result).head == self.head
func VecDeque.Clone(self) @P22
  requires dqwf(self)
  inv forall j in 0 .. ?i :: dq(?p, j) == clone(dq(self, j))
  inv dqwf(?p) && ?p.len == ?i
  inv fresh(arr(?p.buffer))
  ensures dqwf(result) && result.len == self.len
  ensures forall j in 0 .. self.len :: dq(result, j) == clone(dq(self, j))
  ensures fresh(arr(result.buffer))
func VecDeque.Eq(self, other) @P22
  requires dqwf(self) && dqwf(other)
  inv forall j in 0 .. ?i :: eq(dq(self, j), dq(other, j))
  ensures result <==> self.len == other.len && (forall j in 0 .. self.len :: eq(dq(self, j), dq(other, j)))

// ---- searching and sorting ----
func VecDeque.BinarySearch(self, value) @P18
  requires dqwf(self)
  requires forall i, j in 0 .. self.len :: i <= j ==> cmp(dq(self, i), dq(self, j)) <= 0
  inv forall j in 0 .. ?i :: cmp(dq(self, j), value) < 0
  inv forall j in ?i .. self.len :: cmp(dq(self, j), value) > 0
  ensures isSome(result) ==> got(result) < self.len && cmp(dq(self, got(result)), value) == 0
  ensures isNone(result) ==> (forall j in 0 .. self.len :: cmp(dq(self, j), value) != 0)
func VecDeque.BinarySearchBy(self, f) @P18
  requires dqwf(self)
  requires forall i, j in 0 .. self.len :: i <= j ==> app(f, dq(self, i)) <= app(f, dq(self, j))
  inv forall j in 0 .. ?i :: app(f, dq(self, j)) < 0
  inv forall j in ?i .. self.len :: app(f, dq(self, j)) > 0
  ensures isSome(result) ==> got(result) < self.len && app(f, dq(self, got(result))) == 0
  ensures isNone(result) ==> (forall j in 0 .. self.len :: app(f, dq(self, j)) != 0)

// the contents as a sequence
uf dqlin[E](seq[E], int, int, int): seq[E]
axiom dqlin_def[E] of dqlin (a: seq[E], o: int, h: int, c: int, j: int) pattern (dqlin(a, o, h, c)[j]) : dqlin(a, o, h, c)[j] == ring(a, o, h, c, j)
def dqseq(d) = dqlin(content(d.buffer), off(d.buffer), d.head, len(d.buffer))
foreach M, S in Sort:stably SortUnstable:permd {
func VecDeque.$M(self) @P18
  requires dqwf(self)
  modifies *self, backing(self.buffer)
  ensures dqwf(self) && self.len == old(self.len)
  ensures [ordered] forall i, j in 0 .. self.len :: i <= j ==> cmp(dq(self, i), dq(self, j)) <= 0
  ensures [permutation] permd(dqseq(self), 0, old(dqseq(self)), 0, self.len) && $S(dqseq(self), 0, old(dqseq(self)), 0, self.len)
func VecDeque.$MBy(self, f) @P18
  requires dqwf(self)
  requires [order] forall a: T, b: T pattern (app(f, a, b)) :: app(f, a, b) == -app(f, b, a) && app(f, a, b) <= 1
  requires [order] forall a: T, b: T, c: T pattern (app(f, a, b), app(f, b, c)) :: app(f, a, b) <= 0 && app(f, b, c) <= 0 ==> app(f, a, c) <= 0
  modifies *self, backing(self.buffer)
  ensures dqwf(self) && self.len == old(self.len)
  ensures [ordered] forall i, j in 0 .. self.len :: i <= j ==> app(f, dq(self, i), dq(self, j)) <= 0
  ensures [permutation] permd(dqseq(self), 0, old(dqseq(self)), 0, self.len) && $S(dqseq(self), 0, old(dqseq(self)), 0, self.len)
}
