// Iterators. What an iterator has still to yield: rem(it) elements, rv(it, 0), rv(it, 1), ...
// foldl(f, x, a, o, n): f(...f(f(x, a[o]), a[o+1])..., a[o+n-1])
uf foldl[E](bin[E], E, seq[E], int, int): E
axiom foldl_zero[E] of foldl (f: bin[E], x: E, a: seq[E], o: int) pattern (foldl(f, x, a, o, 0)) : foldl(f, x, a, o, 0) == x
axiom foldl_step[E] of foldl (f: bin[E], x: E, a: seq[E], o: int, n: int, m: int) pattern (foldl(f, x, a, o, n), foldl(f, x, a, o, m)) :
  m == n + 1 && 0 <= n ==> foldl(f, x, a, o, m) == app(f, foldl(f, x, a, o, n), a[o + n])

def rem(it) = len(it.vec.data) - it.position
def rv(it, j) = it.vec.data[it.position + j]
def itwf(it) = it.position <= len(it.vec.data)
def its(it) = content(it.vec.data)
def ito(it) = off(it.vec.data) + it.position

// the receiver is a copy, except that of Next and that of some adapters of the ordered maps, which are used up
foreach It in VecIter HashMapKeys HashMapValues HashSetIter BTreeMapKeys BTreeMapValues BTreeSetIter {
func $It.Next(self) @P17
  opt transparent
  requires itwf(self)
  modifies *self
  ensures [value] noneOr(result, old(rem(self)) > 0, old(rv(self, 0)))
  ensures [advance] self.position == old(self.position) + (if old(rem(self)) > 0 then 1 else 0) && self.vec.data == old(self.vec.data)
func $It.Rev(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?i == old(rem(self)) - 1 - (?j - old(self.position)) || (?i == 18446744073709551615 && ?j == old(len(self.vec.data)))
  inv forall j in 0 .. ?j - old(self.position) :: ?s[old(rem(self)) - 1 - j] == old(rv(self, j))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [reversed] forall j in 0 .. old(rem(self)) :: rv(dyn(result), old(rem(self)) - 1 - j) == old(rv(self, j))
func $It.CollectToVec(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == old(rv(self, j))
  ensures [size] len(result.data) == old(rem(self))
  ensures [elements] forall j in 0 .. old(rem(self)) :: result.data[j] == old(rv(self, j))
func $It.CollectToLinkedList(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?p.len == ?i - old(self.position)
  inv lwf(?p)
  inv ref(?p.tail) == 0 || fresh(ref(?p.tail))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == old(rv(self, j))
  ensures [size] lwf(result) && result.len == old(rem(self))
  ensures [elements] forall j in 0 .. old(rem(self)) :: lval(result, j) == old(rv(self, j))
}
foreach It in VecIter HashMapKeys HashMapValues HashSetIter BTreeSetIter {
func $It.Map(self, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == app(f, old(rv(self, j)))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [mapped] forall j in 0 .. old(rem(self)) :: rv(dyn(result), j) == app(f, old(rv(self, j)))
func $It.Filter(self, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv forall j in 0 .. ?i - old(self.position) pattern (kept(f, old(its(self)), old(ito(self)), j)) :: app(f, old(rv(self, j))) ==> ?s[kept(f, old(its(self)), old(ito(self)), j)] == old(rv(self, j)) && 0 <= kept(f, old(its(self)), old(ito(self)), j) && kept(f, old(its(self)), old(ito(self)), j) < len(?s)
  inv len(?s) == kept(f, old(its(self)), old(ito(self)), ?i - old(self.position))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == kept(f, old(its(self)), old(ito(self)), old(rem(self)))
  ensures [kept] forall j in 0 .. old(rem(self)) :: app(f, old(rv(self, j))) ==> rv(dyn(result), kept(f, old(its(self)), old(ito(self)), j)) == old(rv(self, j))
func $It.Fold(self, init, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?x == foldl(f, old(init), old(its(self)), old(ito(self)), ?i - old(self.position))
  ensures result == foldl(f, old(init), old(its(self)), old(ito(self)), old(rem(self)))
}
foreach It in BTreeMapKeys BTreeMapValues {
func $It.Map(self, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == app(f, old(rv(self, j)))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [mapped] forall j in 0 .. old(rem(self)) :: rv(dyn(result), j) == app(f, old(rv(self, j)))
func $It.Filter(self, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv forall j in 0 .. ?i - old(self.position) pattern (kept(f, old(its(self)), old(ito(self)), j)) :: app(f, old(rv(self, j))) ==> ?s[kept(f, old(its(self)), old(ito(self)), j)] == old(rv(self, j)) && 0 <= kept(f, old(its(self)), old(ito(self)), j) && kept(f, old(its(self)), old(ito(self)), j) < len(?s)
  inv len(?s) == kept(f, old(its(self)), old(ito(self)), ?i - old(self.position))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == kept(f, old(its(self)), old(ito(self)), old(rem(self)))
  ensures [kept] forall j in 0 .. old(rem(self)) :: app(f, old(rv(self, j))) ==> rv(dyn(result), kept(f, old(its(self)), old(ito(self)), j)) == old(rv(self, j))
func $It.Fold(self, init, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?x == foldl(f, old(init), old(its(self)), old(ito(self)), ?i - old(self.position))
  ensures result == foldl(f, old(init), old(its(self)), old(ito(self)), old(rem(self)))
}

// iterators over pairs
uf keptp[K,V](pred[Pair[K,V]], seq[K], seq[V], int, int): int
axiom keptp_zero[K,V] of keptp (f: pred[Pair[K,V]], a: seq[K], b: seq[V], o: int) pattern (keptp(f, a, b, o, 0)) : keptp(f, a, b, o, 0) == 0
axiom keptp_step[K,V] of keptp (f: pred[Pair[K,V]], a: seq[K], b: seq[V], o: int, n: int, m: int) pattern (keptp(f, a, b, o, n), keptp(f, a, b, o, m)) :
  m == n + 1 && 0 <= n ==> keptp(f, a, b, o, m) == keptp(f, a, b, o, n) + (if app(f, pair(a[o + n], b[o + n])) then 1 else 0)
// foldl over pairs: the key and the value of the result
uf foldpk[K,V](bin[Pair[K,V]], K, V, seq[K], seq[V], int, int): K
uf foldpv[K,V](bin[Pair[K,V]], K, V, seq[K], seq[V], int, int): V
axiom foldpk_zero[K,V] of foldpk (f: bin[Pair[K,V]], x: K, y: V, a: seq[K], b: seq[V], o: int) pattern (foldpk(f, x, y, a, b, o, 0)) : foldpk(f, x, y, a, b, o, 0) == x
axiom foldpv_zero[K,V] of foldpv (f: bin[Pair[K,V]], x: K, y: V, a: seq[K], b: seq[V], o: int) pattern (foldpv(f, x, y, a, b, o, 0)) : foldpv(f, x, y, a, b, o, 0) == y
axiom foldpk_step[K,V] of foldpk (f: bin[Pair[K,V]], x: K, y: V, a: seq[K], b: seq[V], o: int, n: int, m: int) pattern (foldpk(f, x, y, a, b, o, n), foldpk(f, x, y, a, b, o, m)) :
  m == n + 1 && 0 <= n ==> foldpk(f, x, y, a, b, o, m) == app(f, pair(foldpk(f, x, y, a, b, o, n), foldpv(f, x, y, a, b, o, n)), pair(a[o + n], b[o + n])).Key
axiom foldpv_step[K,V] of foldpv (f: bin[Pair[K,V]], x: K, y: V, a: seq[K], b: seq[V], o: int, n: int, m: int) pattern (foldpv(f, x, y, a, b, o, n), foldpv(f, x, y, a, b, o, m)) :
  m == n + 1 && 0 <= n ==> foldpv(f, x, y, a, b, o, m) == app(f, pair(foldpk(f, x, y, a, b, o, n), foldpv(f, x, y, a, b, o, n)), pair(a[o + n], b[o + n])).Value
def itk(it) = content(it.vec.data, Key)
def itv(it) = content(it.vec.data, Value)
foreach It in HashMapIter BTreeMapIter {
func $It.Next(self) @P17
  opt transparent
  requires itwf(self)
  modifies *self
  ensures [value] noneOr(result, old(rem(self)) > 0, old(rv(self, 0)))
  ensures [advance] self.position == old(self.position) + (if old(rem(self)) > 0 then 1 else 0) && self.vec.data == old(self.vec.data)
func $It.Rev(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?i == old(rem(self)) - 1 - (?j - old(self.position)) || (?i == 18446744073709551615 && ?j == old(len(self.vec.data)))
  inv forall j in 0 .. ?j - old(self.position) :: ?s[old(rem(self)) - 1 - j] == old(rv(self, j))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [reversed] forall j in 0 .. old(rem(self)) :: rv(dyn(result), old(rem(self)) - 1 - j) == old(rv(self, j))
func $It.CollectToVec(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == old(rv(self, j))
  ensures [size] len(result.data) == old(rem(self))
  ensures [elements] forall j in 0 .. old(rem(self)) :: result.data[j] == old(rv(self, j))
func $It.CollectToLinkedList(self) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv ?p.len == ?i - old(self.position)
  inv lwf(?p)
  inv ref(?p.tail) == 0 || fresh(ref(?p.tail))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == old(rv(self, j))
  ensures [size] lwf(result) && result.len == old(rem(self))
  ensures [elements] forall j in 0 .. old(rem(self)) :: lval(result, j) == old(rv(self, j))
}
foreach It in HashMapIter {
func $It.Map(self, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == app(f, old(rv(self, j)))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [mapped] forall j in 0 .. old(rem(self)) :: rv(dyn(result), j) == app(f, old(rv(self, j)))
func $It.Filter(self, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv forall j in 0 .. ?i - old(self.position) pattern (keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)) :: app(f, old(rv(self, j))) ==> ?s[keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)] == old(rv(self, j)) && 0 <= keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j) && keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j) < len(?s)
  inv len(?s) == keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
  ensures [kept] forall j in 0 .. old(rem(self)) :: app(f, old(rv(self, j))) ==> rv(dyn(result), keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)) == old(rv(self, j))
func $It.Fold(self, init, f) @P17
  requires itwf(self)
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv init.Key == foldpk(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  inv init.Value == foldpv(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  ensures result.Key == foldpk(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
  ensures result.Value == foldpv(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
}
foreach It in BTreeMapIter {
func $It.Map(self, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == app(f, old(rv(self, j)))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == old(rem(self))
  ensures [mapped] forall j in 0 .. old(rem(self)) :: rv(dyn(result), j) == app(f, old(rv(self, j)))
func $It.Filter(self, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv forall j in 0 .. ?i - old(self.position) pattern (keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)) :: app(f, old(rv(self, j))) ==> ?s[keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)] == old(rv(self, j)) && 0 <= keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j) && keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j) < len(?s)
  inv len(?s) == keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  ensures [size] dyn(result).position == 0 && rem(dyn(result)) == keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
  ensures [kept] forall j in 0 .. old(rem(self)) :: app(f, old(rv(self, j))) ==> rv(dyn(result), keptp(f, old(itk(self)), old(itv(self)), old(ito(self)), j)) == old(rv(self, j))
func $It.Fold(self, init, f) @P17
  requires itwf(self)
  modifies *self
  inv itwf(self) && self.vec.data == old(self.vec.data) && self.position >= old(self.position)
  dec rem(self)
  inv init.Key == foldpk(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  inv init.Value == foldpv(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), ?i - old(self.position))
  ensures result.Key == foldpk(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
  ensures result.Value == foldpv(f, old(init.Key), old(init.Value), old(itk(self)), old(itv(self)), old(ito(self)), old(rem(self)))
}

func Vec.IntoIter(self) @P17
  opt transparent
  ensures dyn(result).vec.data == self.data && dyn(result).position == 0 && fresh(ref(dyn(result)))
func VecDeque.IntoIter(self) @P17
  opt transparent
  requires dqwf(self)
  ensures [elements] dyn(result).deque.len == self.len && (forall j in 0 .. self.len :: dq(dyn(result).deque, j) == dq(self, j))
  ensures dqwf(dyn(result).deque) && dyn(result).position == 0 && fresh(ref(dyn(result)))
def dit(it) = it.deque != nil && dqwf(it.deque) && it.position <= it.deque.len && it.deque.len <= 281474976710656
def drem(it) = it.deque.len - it.position
def drv(it, j) = dq(it.deque, it.position + j)
func VecDequeIter.Next(self) @P17
  requires dit(self)
  modifies *self
  ensures [value] noneOr(result, old(drem(self)) > 0, old(drv(self, 0)))
  ensures [advance] self.position == old(self.position) + (if old(drem(self)) > 0 then 1 else 0) && self.deque == old(self.deque)
func VecDequeIter.Map(self, f) @P17
  requires dit(self)
  inv dqwf(?p) && ?p.len == ?i - old(self.position) && fresh(arr(?p.buffer))
  inv forall j in 0 .. ?p.len :: dq(?p, j) == app(f, old(drv(self, j)))
  ensures [size] dit(dyn(result)) && dyn(result).position == 0 && drem(dyn(result)) == old(drem(self))
  ensures [mapped] forall j in 0 .. old(drem(self)) :: drv(dyn(result), j) == app(f, old(drv(self, j)))
func VecDequeIter.Filter(self, f) @P17
  requires dit(self)
  inv dqwf(?p) && fresh(arr(?p.buffer))
  inv ?p.len == kept(f, old(dqseq(self.deque)), old(self.position), ?i - old(self.position))
  inv forall j in 0 .. ?i - old(self.position) pattern (kept(f, old(dqseq(self.deque)), old(self.position), j)) :: app(f, old(drv(self, j))) ==> dq(?p, kept(f, old(dqseq(self.deque)), old(self.position), j)) == old(drv(self, j)) && 0 <= kept(f, old(dqseq(self.deque)), old(self.position), j) && kept(f, old(dqseq(self.deque)), old(self.position), j) < ?p.len
  ensures [size] dit(dyn(result)) && dyn(result).position == 0 && drem(dyn(result)) == kept(f, old(dqseq(self.deque)), old(self.position), old(drem(self)))
  ensures [kept] forall j in 0 .. old(drem(self)) :: app(f, old(drv(self, j))) ==> drv(dyn(result), kept(f, old(dqseq(self.deque)), old(self.position), j)) == old(drv(self, j))
func VecDequeIter.Fold(self, initial, f) @P17
  requires dit(self)
  inv ?x == foldl(f, old(initial), old(dqseq(self.deque)), old(self.position), ?i - old(self.position))
  ensures result == foldl(f, old(initial), old(dqseq(self.deque)), old(self.position), old(drem(self)))
func VecDequeIter.Rev(self) @P17
  requires dit(self)
  inv dqwf(?p) && ?p.len == old(self.deque.len) - ?i && fresh(arr(?p.buffer))
  inv forall j in 0 .. ?p.len :: dq(?p, j) == old(drv(self, drem(self) - 1 - j))
  ensures [size] dit(dyn(result)) && dyn(result).position == 0 && drem(dyn(result)) == old(drem(self))
  ensures [reversed] forall j in 0 .. old(drem(self)) :: drv(dyn(result), j) == old(drv(self, drem(self) - 1 - j))
func VecDequeIter.CollectToVec(self) @P17
  requires dit(self)
  inv len(?s) == ?i - old(self.position)
  inv forall j in 0 .. len(?s) :: ?s[j] == old(drv(self, j))
  ensures [size] len(result.data) == old(drem(self))
  ensures [elements] forall j in 0 .. old(drem(self)) :: result.data[j] == old(drv(self, j))
func VecDequeIter.CollectToLinkedList(self) @P17
  requires dit(self)
  inv ?p.len == ?i - old(self.position)
  inv lwf(?p)
  inv ref(?p.tail) == 0 || fresh(ref(?p.tail))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == old(drv(self, j))
  ensures [size] lwf(result) && result.len == old(drem(self))
  ensures [elements] forall j in 0 .. old(drem(self)) :: lval(result, j) == old(drv(self, j))
