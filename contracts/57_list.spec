// LinkedList: a doubly-linked list. The sequence is found by following next from the head.
// nth(h, p, n): the node reached from p in n steps of h
uf nth(seq[ref], ref, int): ref
axiom nth_zero (h: seq[ref], p: ref) pattern (nth(h, p, 0)) : nth(h, p, 0) == p
axiom nth_step (h: seq[ref], p: ref, n: int, m: int) pattern (nth(h, p, n), nth(h, p, m)) :
  m == n + 1 && 0 <= n ==> nth(h, p, m) == h[nth(h, p, n)]
// two heaps that agree on the nodes met
lemma nth_ext (h: seq[ref], g: seq[ref], p: ref, n: int)
  requires 0 <= n && (forall j in 0 .. n pattern (nth(h, p, j)) :: g[nth(h, p, j)] == h[nth(h, p, j)])
  induct n
  ensures nth(h, p, n) == nth(g, p, n)
lemma nth_tail (h: seq[ref], p: ref, n: int, m: int)
  requires 0 <= n && m == n + 1
  induct n
  use 0 < n ==> nth_tail(h, p, n - 1, n)
  ensures nth(h, p, m) == nth(h, h[p], n)

def nx(l) = fheap(l.head, next)
def ln(l, i) = nth(fheap(l.head, next), ref(l.head), i)
def lval(l, i) = like(l.head, ln(l, i)).value
def lprev(l, r) = fheap(l.head, prev)[r]
def lwf(l) = l.len <= 281474976710656 && ln(l, l.len) == 0 && (ref(l.head) == 0 <==> l.len == 0) && (ref(l.tail) == 0 <==> l.len == 0)
  && (0 < l.len ==> ref(l.tail) == ln(l, l.len - 1) && lprev(l, ref(l.head)) == 0)
  && (forall i in 0 .. l.len pattern (ln(l, i)) :: allocated(ln(l, i)))
  && (forall i: int, j: int pattern (ln(l, i), ln(l, j)) :: 0 <= i && j == i + 1 && j < l.len ==> lprev(l, ln(l, j)) == ln(l, i))
  && (forall i: int, j: int pattern (ln(l, i), ln(l, j)) :: 0 <= i && i < j && j < l.len ==> ln(l, i) != ln(l, j))

func LinkedListNew() @P12
  opt transparent
  ensures lwf(result) && result.len == 0
func LinkedList.Len(list) @P12
  opt transparent
  ensures result == list.len
func LinkedList.IsEmpty(list) @P12
  opt transparent
  ensures result <==> list.len == 0
func LinkedList.Clear(list) @P12
  modifies *list
  ensures lwf(list) && list.len == 0
func LinkedList.PushBack(list, value) @P12
  requires lwf(list) && list.len < 281474976710656
  modifies *list, objs v: LinkedListNode[T] if v == old(ref(list.tail))
  use forall i: int pattern (ln(list, i)) :: nth_ext(old(nx(list)), nx(list), old(ref(list.head)), i)
  assert old(list.len) > 0 ==> ln(list, old(list.len) - 1) == old(ref(list.tail))
  assert ln(list, old(list.len)) == ref(list.tail)
  ensures [wf] lwf(list)
  ensures [length] list.len == old(list.len) + 1
  ensures [kept] forall i in 0 .. old(list.len) :: lval(list, i) == old(lval(list, i))
  ensures [last] lval(list, old(list.len)) == value
  ensures fresh(ref(list.tail))
  ensures [nodes] forall i in 0 .. old(list.len) pattern (ln(list, i)) :: ln(list, i) == old(ln(list, i))
func LinkedList.PushFront(list, value) @P12
  requires lwf(list) && list.len < 281474976710656
  modifies *list, objs v: LinkedListNode[T] if v == old(ref(list.head))
  use forall i: int pattern (ln(list, i)) :: nth_ext(old(nx(list)), nx(list), old(ref(list.head)), i - 1)
  use forall i: int pattern (ln(list, i)) :: nth_tail(nx(list), ref(list.head), i - 1, i)
  ensures [wf] lwf(list)
  ensures [length] list.len == old(list.len) + 1
  ensures [kept] forall i in 1 .. list.len :: lval(list, i) == old(lval(list, i - 1))
  ensures [first] lval(list, 0) == value
  ensures fresh(ref(list.head))
func LinkedList.PopBack(list) @P12
  requires lwf(list)
  modifies *list, objs v: LinkedListNode[T] if v == old(lprev(list, ref(list.tail)))
  use forall i: int pattern (ln(list, i)) :: nth_ext(old(nx(list)), nx(list), old(ref(list.head)), i)
  assert old(list.len) > 1 ==> old(ln(list, list.len - 2)) == ref(list.tail)
  assert old(list.len) > 1 ==> ln(list, list.len - 1) == ref(list.tail)
  ensures [value] noneOr(result, old(list.len) > 0, old(lval(list, list.len - 1)))
  ensures [wf] lwf(list)
  ensures [length] old(list.len) > 0 ==> list.len == old(list.len) - 1
  ensures [kept] forall i in 0 .. list.len :: lval(list, i) == old(lval(list, i))
func LinkedList.PopFront(list) @P12
  requires lwf(list)
  modifies *list, objs v: LinkedListNode[T] if v == old(nx(list)[ref(list.head)])
  use forall i: int pattern (ln(list, i)) :: nth_tail(old(nx(list)), old(ref(list.head)), i, i + 1)
  ensures [value] noneOr(result, old(list.len) > 0, old(lval(list, 0)))
  ensures [wf] lwf(list)
  ensures [length] old(list.len) > 0 ==> list.len == old(list.len) - 1
  ensures [kept] forall i in 0 .. list.len :: lval(list, i) == old(lval(list, i + 1))
func LinkedList.Back(list) @P12
  requires lwf(list)
  ensures isSome(result) <==> list.len > 0
  ensures list.len > 0 ==> *got(result) == lval(list, list.len - 1)
func LinkedList.Front(list) @P12
  requires lwf(list)
  ensures isSome(result) <==> list.len > 0
  ensures list.len > 0 ==> *got(result) == lval(list, 0)
lemma nth_add (h: seq[ref], p: ref, a: int, b: int, c: int)
  requires 0 <= a && 0 <= b && c == a + b
  induct b
  use 0 < b ==> nth_add(h, p, a, b - 1, c - 1)
  ensures nth(h, p, c) == nth(h, nth(h, p, a), b)
func LinkedList.Append(list, other) @P12
  requires other != nil && lwf(list) && lwf(other) && ref(list) != ref(other) && list.len + other.len <= 281474976710656
  requires forall i: int, j: int pattern (ln(list, i), ln(other, j)) :: 0 <= i && i < list.len && 0 <= j && j < other.len ==> ln(list, i) != ln(other, j)
  modifies *list, *other, objs v: LinkedListNode[T] if v == old(ref(list.tail)) || v == old(ref(other.head))
  use forall i: int pattern (ln(list, i)) :: nth_ext(old(nx(list)), nx(list), old(ref(list.head)), i)
  use forall i: int pattern (ln(list, i)) :: nth_ext(old(nx(list)), nx(list), old(ref(other.head)), i - old(list.len))
  use forall i: int pattern (ln(list, i)) :: nth_add(nx(list), ref(list.head), old(list.len), i - old(list.len), i)
  assert old(list.len) > 0 ==> ln(list, old(list.len) - 1) == old(ref(list.tail))
  assert old(other.len) > 0 ==> ln(list, old(list.len)) == old(ref(other.head))
  ensures [length] list.len == old(list.len) + old(other.len)
  ensures [wf] lwf(list)
  ensures [kept] forall i in 0 .. old(list.len) :: lval(list, i) == old(lval(list, i))
  ensures [moved] forall i in 0 .. old(other.len) :: lval(list, old(list.len) + i) == old(lval(other, i))
  ensures [emptied] lwf(other) && other.len == 0
// chained(h, p): following h from p ends at nil, after steps(h, p) steps
uf chained(seq[ref], ref): bool
uf steps(seq[ref], ref): int
axiom chained_end (h: seq[ref], p: ref) pattern (chained(h, p)) : chained(h, p) ==> 0 <= steps(h, p) && nth(h, p, steps(h, p)) == 0
axiom chained_least (h: seq[ref], p: ref, n: int) pattern (steps(h, p), nth(h, p, n)) : chained(h, p) && 0 <= n && n < steps(h, p) ==> nth(h, p, n) != 0
axiom chained_intro (h: seq[ref], p: ref, n: int) pattern (chained(h, p), nth(h, p, n)) : 0 <= n && nth(h, p, n) == 0 ==> chained(h, p) && steps(h, p) <= n
lemma steps_nil (h: seq[ref], p: ref) pattern (steps(h, p)) pattern (chained(h, p))
  requires p == 0
  use nth_add(h, p, 0, 0, 0)
  ensures chained(h, p) && steps(h, p) == 0
lemma steps_next (h: seq[ref], p: ref) pattern (steps(h, h[p])) pattern (chained(h, h[p]))
  requires chained(h, p) && p != 0
  use nth_tail(h, p, steps(h, p) - 1, steps(h, p))
  use nth_tail(h, p, steps(h, h[p]), steps(h, h[p]) + 1)
  ensures chained(h, h[p]) && steps(h, h[p]) == steps(h, p) - 1
lemma steps_pos (h: seq[ref], p: ref) pattern (steps(h, p))
  requires chained(h, p) && p != 0
  use nth_add(h, p, 0, 0, 0)
  ensures 0 < steps(h, p)
lemma steps_len (h: seq[ref], p: ref, n: int)
  requires 0 <= n && nth(h, p, n) == 0 && (forall j in 0 .. n pattern (nth(h, p, j)) :: nth(h, p, j) != 0)
  ensures chained(h, p) && steps(h, p) == n

// LinkedListIter: the nodes from pointer on
def lh(it) = fheap(it.pointer, next)
def lrem(it) = steps(lh(it), ref(it.pointer))
def lrv(it, j) = like(it.pointer, nth(lh(it), ref(it.pointer), j)).value
def lit(it) = chained(lh(it), ref(it.pointer)) && lrem(it) <= 281474976710656 && (forall j in 0 .. lrem(it) pattern (nth(lh(it), ref(it.pointer), j)) :: allocated(nth(lh(it), ref(it.pointer), j)))
func LinkedList.IntoIter(list) @P17
  opt transparent
  ensures dyn(result).pointer == list.head && fresh(ref(dyn(result)))
func LinkedListIter.Next(self) @P17
  opt transparent
  requires lit(self)
  modifies *self
  ensures [value] noneOr(result, old(lrem(self)) > 0, old(lrv(self, 0)))
  ensures [advance] old(lrem(self)) > 0 ==> chained(lh(self), ref(self.pointer)) && lrem(self) == old(lrem(self)) - 1
  ensures [end] old(lrem(self)) == 0 ==> self.pointer == old(self.pointer)
func LinkedListIter.Map(self, f) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv lwf(?p) && (ref(?p.tail) == 0 || fresh(ref(?p.tail)))
  inv ?p.len == old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == app(f, old(lrv(self, j)))
  ensures [size] lit(dyn(result)) && lrem(dyn(result)) == old(lrem(self))
  ensures [mapped] forall j in 0 .. old(lrem(self)) :: lrv(dyn(result), j) == app(f, old(lrv(self, j)))
// lseq(h, v, p): the values v of the nodes met from p along h
uf lseq[E](seq[ref], seq[E], ref): seq[E]
axiom lseq_at[E] of lseq (h: seq[ref], v: seq[E], p: ref, j: int) pattern (lseq(h, v, p)[j]) : lseq(h, v, p)[j] == v[nth(h, p, j)]
def lis(it) = lseq(lh(it), fheap(it.pointer, value), ref(it.pointer))

func LinkedListIter.Rev(self) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv lwf(?p) && (ref(?p.head) == 0 || fresh(ref(?p.head)))
  inv ?p.len == old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == old(lrv(self, ?p.len - 1 - j))
  ensures [size] lit(dyn(result)) && lrem(dyn(result)) == old(lrem(self))
  ensures [reversed] forall j in 0 .. old(lrem(self)) :: lrv(dyn(result), j) == old(lrv(self, lrem(self) - 1 - j))
func LinkedListIter.Filter(self, f) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv lwf(?p) && (ref(?p.tail) == 0 || fresh(ref(?p.tail)))
  inv ?p.len <= old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer))
  inv ?p.len == kept(f, old(lis(self)), 0, old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv forall j in 0 .. old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)) pattern (kept(f, old(lis(self)), 0, j)) :: app(f, old(lrv(self, j))) ==> lval(?p, kept(f, old(lis(self)), 0, j)) == old(lrv(self, j)) && 0 <= kept(f, old(lis(self)), 0, j) && kept(f, old(lis(self)), 0, j) < ?p.len
  ensures [size] lit(dyn(result)) && lrem(dyn(result)) == kept(f, old(lis(self)), 0, old(lrem(self)))
  ensures [kept] forall j in 0 .. old(lrem(self)) :: app(f, old(lrv(self, j))) ==> lrv(dyn(result), kept(f, old(lis(self)), 0, j)) == old(lrv(self, j))
func LinkedListIter.Fold(self, init, f) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv ?x == foldl(f, old(init), old(lis(self)), 0, old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  ensures result == foldl(f, old(init), old(lis(self)), 0, old(lrem(self)))
func LinkedListIter.CollectToVec(self) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv len(?s) == old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer))
  inv forall j in 0 .. len(?s) :: ?s[j] == old(lrv(self, j))
  ensures [size] len(result.data) == old(lrem(self))
  ensures [elements] forall j in 0 .. old(lrem(self)) :: result.data[j] == old(lrv(self, j))
func LinkedListIter.CollectToLinkedList(self) @P17
  requires lit(self)
  dec steps(old(lh(self)), ref(?q.pointer))
  inv chained(old(lh(self)), ref(?q.pointer))
  inv 0 <= steps(old(lh(self)), ref(?q.pointer)) && steps(old(lh(self)), ref(?q.pointer)) <= old(lrem(self))
  inv ref(?q.pointer) == nth(old(lh(self)), old(ref(self.pointer)), old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer)))
  inv lwf(?p) && (ref(?p.tail) == 0 || fresh(ref(?p.tail)))
  inv ?p.len == old(lrem(self)) - steps(old(lh(self)), ref(?q.pointer))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == old(lrv(self, j))
  ensures [size] lwf(result) && result.len == old(lrem(self))
  ensures [elements] forall j in 0 .. old(lrem(self)) :: lval(result, j) == old(lrv(self, j))
// cloning and comparing
func LinkedList.AsRef(self) @P12
  ensures *result == self
func LinkedList.Clone(self) @P22
  requires lwf(self)
  use steps_len(old(nx(self)), ref(self.head), self.len)
  dec steps(old(nx(self)), ref(?q.pointer))
  inv chained(old(nx(self)), ref(?q.pointer))
  inv 0 <= steps(old(nx(self)), ref(?q.pointer)) && steps(old(nx(self)), ref(?q.pointer)) <= self.len
  inv ref(?q.pointer) == nth(old(nx(self)), ref(self.head), self.len - steps(old(nx(self)), ref(?q.pointer)))
  inv lwf(?p) && (ref(?p.tail) == 0 || fresh(ref(?p.tail)))
  inv ?p.len == self.len - steps(old(nx(self)), ref(?q.pointer))
  inv forall j in 0 .. ?p.len :: lval(?p, j) == clone(old(lval(self, j)))
  inv forall j in 0 .. ?p.len pattern (ln(?p, j)) :: fresh(ln(?p, j))
  ensures [size] lwf(result) && result.len == self.len
  ensures [elements] forall j in 0 .. self.len :: lval(result, j) == clone(old(lval(self, j)))
  ensures [unshared] forall j in 0 .. self.len :: fresh(ln(result, j))
func LinkedList.Eq(self, rhs) @P22
  requires lwf(self) && lwf(rhs)
  use steps_len(old(nx(self)), ref(self.head), self.len)
  use steps_len(old(nx(rhs)), ref(rhs.head), rhs.len)
  dec steps(old(nx(self)), ref(?q.pointer))
  inv chained(old(nx(self)), ref(?q.pointer))
  inv 0 <= steps(old(nx(self)), ref(?q.pointer)) && steps(old(nx(self)), ref(?q.pointer)) <= self.len
  inv ref(?q.pointer) == nth(old(nx(self)), ref(self.head), self.len - steps(old(nx(self)), ref(?q.pointer)))
  inv ref(?p.pointer) == nth(old(nx(rhs)), ref(rhs.head), self.len - steps(old(nx(self)), ref(?q.pointer)))
  inv forall j in 0 .. self.len - steps(old(nx(self)), ref(?q.pointer)) :: eq(lval(self, j), lval(rhs, j))
  ensures result <==> self.len == rhs.len && (forall j in 0 .. self.len :: eq(lval(self, j), lval(rhs, j)))

// text
func LinkedList.Display(self) @P21
  requires lwf(self)
  use steps_len(old(nx(self)), ref(self.head), self.len)
  dec steps(old(nx(self)), ref(?q.pointer))
  inv chained(old(nx(self)), ref(?q.pointer))
  inv 0 <= steps(old(nx(self)), ref(?q.pointer)) && steps(old(nx(self)), ref(?q.pointer)) <= self.len
  inv ref(?q.pointer) == nth(old(nx(self)), ref(self.head), self.len - steps(old(nx(self)), ref(?q.pointer)))
  inv ?i_ == self.len - steps(old(nx(self)), ref(?q.pointer))
  inv ?z_ == "LinkedList[" + joined(lseq(nx(self), fheap(self.head, value), ref(self.head)), 0, ?i_) + (if 0 < ?i_ && ?i_ < self.len then ", " else "")
  ensures result == "LinkedList[" + joined(lseq(nx(self), fheap(self.head, value), ref(self.head)), 0, self.len) + "]"
