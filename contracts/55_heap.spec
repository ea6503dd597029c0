// BinaryHeap: a max-heap in a Vec. Its contents are a bag of elements, counted with cnt.
lemma cnt_front[E] of cnt (a: seq[E], o: int, n: int, x: E, p: int, m: int) pattern (cnt(a, o, n, x), cnt(a, p, m, x))
  requires 0 <= m && p == o + 1 && n == m + 1
  induct m
  use m > 0 ==> cnt_front(a, o, n - 1, x, p, m - 1)
  ensures cnt(a, o, 0, x) == 0 && cnt(a, p, 0, x) == 0 && cnt(a, o, n, x) == cnt(a, p, m, x) + (if a[o] == x then 1 else 0)

def edge(i, p) = i == 2 * p + 1 || i == 2 * p + 2
def heapy(s, n) = forall i in 0 .. n, p in 0 .. n :: edge(i, p) ==> cmp(s[i], s[p]) <= 0
def hs(h) = shift(content(h.vec.data), off(h.vec.data))
def hp(h) = heapy(hs(h), len(h.vec.data))
def hcnt(h, x) = cnt(content(h.vec.data), off(h.vec.data), len(h.vec.data), x)
def hpd(h, g) = permd(content(h.vec.data), off(h.vec.data), content(g.vec.data), off(g.vec.data), len(h.vec.data))

lemma heap_top[E] of shift (a: seq[E], n: int, j: int)
  requires heapy(a, n) && 0 <= j && j < n
  induct j
  use j > 0 ==> heap_top(a, n, (j - 1) / 2)
  ensures cmp(a[j], a[0]) <= 0

lemma cnt_le[E] of cnt (a: seq[E], o: int, n: int, x: E, m: E)
  requires 0 <= n && (forall j in 0 .. n :: cmp(shift(a, o)[j], m) <= 0)
  induct n
  ensures cnt(a, o, 0, x) == 0 && shift(a, o)[n - 1] == a[o + n - 1] && (cnt(a, o, n, x) > 0 ==> cmp(x, m) <= 0)

func BinaryHeapNew() @P16
  ensures len(result.vec.data) == 0
func BinaryHeapWithCapacity(capacity) @P16
  requires capacity <= 281474976710656
  ensures len(result.vec.data) == 0 && cap(result.vec.data) >= capacity
func BinaryHeap.Capacity(self) @P16
  ensures result == cap(self.vec.data)
func BinaryHeap.Len(self) @P16
  opt transparent
  ensures result == len(self.vec.data)
func BinaryHeap.IsEmpty(self) @P16
  opt transparent
  ensures result <==> len(self.vec.data) == 0
func BinaryHeap.Reserve(self, capacity) @P16
  opt shift
  requires capacity <= 281474976710656
  modifies *self
  ensures cap(self.vec.data) >= len(self.vec.data) + capacity && len(self.vec.data) == old(len(self.vec.data))
  ensures forall j in 0 .. len(self.vec.data) :: self.vec.data[j] == old(self.vec.data[j])
  ensures [order] old(hp(self)) ==> hp(self)
  ensures [count] forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) == old(hcnt(self, x))
  ensures arr(self.vec.data) == old(arr(self.vec.data)) || fresh(arr(self.vec.data))

// everything but the edge above pos is in order, and the children of pos are in order with its parent
def hpx(a, n, pos) = (forall i in 0 .. n, p in 0 .. n :: edge(i, p) && i != pos ==> cmp(a[i], a[p]) <= 0) && (forall i in 0 .. n, p in 0 .. n :: edge(i, pos) && edge(pos, p) ==> cmp(a[i], a[p]) <= 0)
func BinaryHeap._SiftUp(self, start, pos) @P16
  opt shift
  requires start == 0 && pos < len(self.vec.data)
  requires hpx(hs(self), len(self.vec.data), pos)
  modifies backing(self.vec.data)
  inv ?p.pos < len(self.vec.data) && ?p.elt == self.vec.data[?p.pos]
  inv hpx(hs(self), len(self.vec.data), ?p.pos)
  inv permd(content(self.vec.data), off(self.vec.data), old(content(self.vec.data)), off(self.vec.data), len(self.vec.data))
  ensures hp(self)
  ensures permd(content(self.vec.data), off(self.vec.data), old(content(self.vec.data)), off(self.vec.data), len(self.vec.data))
  ensures self.vec.data == old(self.vec.data)
func BinaryHeap.Push(self, item) @P16
  opt shift
  requires hp(self)
  modifies *self, backing(self.vec.data)
  ensures hp(self) && len(self.vec.data) == old(len(self.vec.data)) + 1
  ensures forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) == old(hcnt(self, x)) + (if x == item then 1 else 0)
  ensures arr(self.vec.data) == old(arr(self.vec.data)) || fresh(arr(self.vec.data))
// every edge that does not touch the hole is in order, and the children of the hole are in order with its parent
def hph(a, n, pos) = (forall i in 0 .. n, p in 0 .. n :: edge(i, p) && i != pos && p != pos ==> cmp(a[i], a[p]) <= 0) && (forall i in 0 .. n, p in 0 .. n :: edge(i, pos) && edge(pos, p) ==> cmp(a[i], a[p]) <= 0)
func BinaryHeap._SiftDownToBottom(self, pos) @P16
  opt shift
  requires pos == 0 && len(self.vec.data) > 0
  requires hph(hs(self), len(self.vec.data), 0)
  modifies backing(self.vec.data)
  dec len(self.vec.data) - ?i
  inv ?p.pos < len(self.vec.data) && ?p.elt == self.vec.data[?p.pos] && ?i == 2 * ?p.pos + 1
  inv hph(hs(self), len(self.vec.data), ?p.pos)
  inv permd(content(self.vec.data), off(self.vec.data), old(content(self.vec.data)), off(self.vec.data), len(self.vec.data))
  ensures hp(self)
  ensures permd(content(self.vec.data), off(self.vec.data), old(content(self.vec.data)), off(self.vec.data), len(self.vec.data))
  ensures self.vec.data == old(self.vec.data)
func BinaryHeap.Pop(self) @P16
  opt shift
  opt inline:Option.Map
  requires hp(self)
  modifies *self, backing(self.vec.data)
  use forall j in 0 .. len(self.vec.data) :: heap_top(hs(self), len(self.vec.data), j)
  use forall x: T pattern (hcnt(self, x)) :: cnt_le(content(self.vec.data), off(self.vec.data), len(self.vec.data), x, hs(self)[0])
  ensures old(len(self.vec.data)) == 0 ==> isNone(result) && len(self.vec.data) == 0
  ensures old(len(self.vec.data)) > 0 ==> isSome(result) && len(self.vec.data) == old(len(self.vec.data)) - 1
  ensures [heap] hp(self)
  ensures [greatest] isSome(result) ==> (forall j in 0 .. old(len(self.vec.data)) :: cmp(old(hs(self)[j]), got(result)) <= 0)
  ensures [greatest] isSome(result) ==> (forall x: T pattern (old(hcnt(self, x))) pattern (hcnt(self, x)) :: old(hcnt(self, x)) > 0 ==> cmp(x, got(result)) <= 0)
  ensures [rest] isSome(result) ==> (forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) + (if x == got(result) then 1 else 0) == old(hcnt(self, x)))
  ensures arr(self.vec.data) == old(arr(self.vec.data)) && off(self.vec.data) == old(off(self.vec.data)) && cap(self.vec.data) == old(cap(self.vec.data))
func BinaryHeap.Append(self, other) @P16
  opt shift
  requires other != nil && ref(self) != ref(other) && hp(self) && hp(other)
  requires arr(self.vec.data) != arr(other.vec.data)
  requires len(self.vec.data) + len(other.vec.data) <= 281474976710656
  modifies *self, *other, backing(self.vec.data)
  inv hp(self) && len(self.vec.data) == old(len(self.vec.data)) + ?i
  inv arr(self.vec.data) == old(arr(self.vec.data)) || fresh(arr(self.vec.data))
  inv forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) == old(hcnt(self, x)) + old(cnt(content(other.vec.data), off(other.vec.data), ?i, x))
  ensures hp(self) && len(self.vec.data) == old(len(self.vec.data)) + old(len(other.vec.data)) && len(other.vec.data) == 0
  ensures forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) == old(hcnt(self, x)) + old(hcnt(other, x))
func BinaryHeap.Clear(self) @P16
  modifies *self
  ensures len(self.vec.data) == 0
func BinaryHeap.AsSlice(self) @P16
  ensures len(result) == len(self.vec.data)
  ensures forall j in 0 .. len(result) :: result[j] == self.vec.data[j]
func BinaryHeap.IntoVec(self) @P16
  ensures result.data == self.vec.data
// what is left in the heap and what is already in the tail of the vector make up the old contents
func BinaryHeap.IntoSortedVec(self) @P16
  opt shift
  requires hp(self)
  modifies *self, backing(self.vec.data)
  inv hp(self) && len(self.vec.data) <= old(len(self.vec.data)) && ?i == wrap(USize, len(self.vec.data) - 1)
  inv arr(self.vec.data) == old(arr(self.vec.data)) && len(?p.data) == old(len(self.vec.data)) && fresh(arr(?p.data))
  inv forall i, j in len(self.vec.data) .. len(?p.data) :: i <= j ==> cmp(shift(content(?p.data), off(?p.data))[i], shift(content(?p.data), off(?p.data))[j]) <= 0
  inv forall x: T, j: int pattern (hcnt(self, x), shift(content(?p.data), off(?p.data))[j]) :: len(self.vec.data) <= j && j < len(?p.data) && hcnt(self, x) > 0 ==> cmp(x, shift(content(?p.data), off(?p.data))[j]) <= 0
  inv forall x: T pattern (hcnt(self, x)) :: hcnt(self, x) + cnt(content(?p.data), off(?p.data) + len(self.vec.data), len(?p.data) - len(self.vec.data), x) == old(hcnt(self, x))
  ensures len(result.data) == old(len(self.vec.data)) && len(self.vec.data) == 0
  ensures [ascending] forall i, j in 0 .. len(result.data) :: i <= j ==> cmp(shift(content(result.data), off(result.data))[i], shift(content(result.data), off(result.data))[j]) <= 0
  ensures [permutation] forall x: T pattern (old(hcnt(self, x))) :: cnt(content(result.data), off(result.data), len(result.data), x) == old(hcnt(self, x))
