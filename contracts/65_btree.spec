// BTreeMap: a B-tree seen as one sorted sequence of entries per tree. Every node covers an interval [a, b) of it.
ghostfield BTreeNode.tk: *BTreeNode[K,V]
ghostfield BTreeNode.a: int
ghostfield BTreeNode.b: int
ghostfield BTreeNode.ht: int
// of the token node of a tree: the entries in order
ghostfield BTreeNode.gs: seq[*K]
ghostfield BTreeNode.gv: seq[*V]
ghostfield BTreeNode.gn: int
// owners of the backing arrays, indexed by array
ghostfield BTreeNode.ko: ref
ghostfield BTreeNode.vo: ref
ghostfield BTreeNode.co: ref

def nd(x, r) = like(x, r)
def kk(q, i) = content(q.keys.data)[i]
def vv(q, i) = content(q.values.data)[i]
def ch(q, i) = content(q.childs.data)[i]
def kpos(q, i) = if q.ht == 0 then q.a + i else ch(q, i).b
def shape(q) = len(q.keys.data) == 11 && len(q.values.data) == 11 && len(q.childs.data) == 12
  && off(q.keys.data) == 0 && off(q.values.data) == 0 && off(q.childs.data) == 0
  && q._MinimumDegree == 6 && 0 <= q.n && q.n <= 11 && 0 <= q.ht && (q._Type == 0 <==> q.ht == 0)
  && like(q, arr(q.keys.data)).ko == ref(q) && like(q, arr(q.values.data)).vo == ref(q) && like(q, arr(q.childs.data)).co == ref(q)
def binv(x) =
  (forall r: ref pattern (nd(x, r).tk) :: nd(x, r).tk != nil ==> allocated(r)) &&
  (forall r: ref pattern (nd(x, r).tk) :: nd(x, r).tk != nil ==> r != 0 && shape(nd(x, r)) && 0 <= nd(x, r).a && nd(x, r).a <= nd(x, r).b && nd(x, r).b <= nd(x, r).tk.gn
     && (nd(x, r).ht == 0 ==> nd(x, r).b == nd(x, r).a + nd(x, r).n) && (nd(x, r).ht > 0 ==> ch(nd(x, r), 0).a == nd(x, r).a && ch(nd(x, r), nd(x, r).n).b == nd(x, r).b)
     && (0 < nd(x, r).a || nd(x, r).b < nd(x, r).tk.gn ==> 5 <= nd(x, r).n))
  && (forall r: ref, i: int pattern (kk(nd(x, r), i)) pattern (vv(nd(x, r), i)) :: nd(x, r).tk != nil && 0 <= i && i < nd(x, r).n ==> kk(nd(x, r), i) == nd(x, r).tk.gs[kpos(nd(x, r), i)] && vv(nd(x, r), i) == nd(x, r).tk.gv[kpos(nd(x, r), i)])
  && (forall r: ref, i: int pattern (ch(nd(x, r), i)) :: nd(x, r).tk != nil && 0 < nd(x, r).ht && 0 <= i && i <= nd(x, r).n ==> ch(nd(x, r), i).tk == nd(x, r).tk && ch(nd(x, r), i).ht == nd(x, r).ht - 1 && nd(x, r).a <= ch(nd(x, r), i).a && ch(nd(x, r), i).a < ch(nd(x, r), i).b && ch(nd(x, r), i).b <= nd(x, r).b)
  && (forall r: ref, i: int, j: int pattern (ch(nd(x, r), i), ch(nd(x, r), j)) :: nd(x, r).tk != nil && 0 < nd(x, r).ht && 0 <= i && i < j && j <= nd(x, r).n ==> ch(nd(x, r), i).b < ch(nd(x, r), j).a && (j == i + 1 ==> ch(nd(x, r), j).a == ch(nd(x, r), i).b + 1))
// different nodes at the same height of a tree cover disjoint intervals
def bdisj(x) = (forall r: ref, s: ref pattern (nd(x, r).tk, nd(x, s).tk) :: nd(x, r).tk != nil && nd(x, s).tk == nd(x, r).tk && nd(x, r).ht == nd(x, s).ht && r != s ==> nd(x, r).b < nd(x, s).a || nd(x, s).b < nd(x, r).a)
// the entries of the tree with token t are in order and exist
def bsorted(t, lo, hi) = (forall p: int, q: int pattern (t.gs[p], t.gs[q]) :: lo <= p && p < q && q < hi ==> cmp(*t.gs[p], *t.gs[q]) < 0)
def bcells(t) = (forall p: int pattern (t.gs[p]) :: 0 <= p && p < t.gn ==> t.gs[p] != nil && allocated(ref(t.gs[p])) && t.gv[p] != nil && allocated(ref(t.gv[p])))

func BTreeNode._Search(self, key) @P14
  requires binv(self) && self.tk != nil && bcells(self.tk) && bsorted(self.tk, 0, self.tk.gn)
  requires (self.a == 0 || cmp(key, *self.tk.gs[self.a - 1]) > 0) && (self.b == self.tk.gn || cmp(key, *self.tk.gs[self.b]) < 0)
  measure self.ht
  inv 0 <= ?i && ?i <= self.n && (0 < ?i ==> cmp(key, *self.tk.gs[kpos(self, ?i - 1)]) > 0 && kk(self, ?i - 1) == self.tk.gs[kpos(self, ?i - 1)])
  ensures [found] isSome(result.0) ==> got(result.0) != nil && got(result.0).tk == self.tk && 0 <= result.1 && result.1 < got(result.0).n && cmp(key, *kk(got(result.0), result.1)) == 0
  ensures [absent] isNone(result.0) ==> (forall p in 0 .. self.tk.gn pattern (self.tk.gs[p]) :: cmp(key, *self.tk.gs[p]) != 0)

def whole(q) = q.a == 0 && q.b == q.tk.gn
// the representation of a map: nothing, or a root that covers all entries of its tree
def bt(m) = (m.root == nil ==> m.len == 0) && (m.root != nil ==> m.root.tk != nil && whole(m.root) && m.root.tk.gn == m.len && bsorted(m.root.tk, 0, m.root.tk.gn) && bcells(m.root.tk) && binv(m.root))

func BTreeMap.Len(self) @P14
  requires bt(self)
  ensures result == (if self.root == nil then 0 else self.root.tk.gn)

func BTreeMap.IsEmpty(self) @P14
  requires bt(self)
  ensures result <==> self.root == nil || self.root.tk.gn == 0

func BTreeMap.Clear(self) @P14
  requires bt(self)
  modifies *self
  ensures bt(self) && self.root == nil

func BTreeMapNew() @P14
  ensures result.root == nil && result.len == 0

func BTreeMap.Get(self, key) @P14
  requires bt(self)
  ensures [empty] self.root == nil ==> isNone(result)
  ensures [found] self.root != nil ==> (forall p in 0 .. self.root.tk.gn pattern (self.root.tk.gs[p]) :: cmp(key, *self.root.tk.gs[p]) == 0 ==> isSome(result) && got(result) == *self.root.tk.gv[p])
  ensures [absent] self.root != nil && isSome(result) ==> !(forall p in 0 .. self.root.tk.gn pattern (self.root.tk.gs[p]) :: cmp(key, *self.root.tk.gs[p]) != 0)

func BTreeMap.ContainsKey(self, key) @P14
  requires bt(self)
  ensures [empty] self.root == nil ==> !result
  ensures [member] self.root != nil ==> (result <==> !(forall p in 0 .. self.root.tk.gn pattern (self.root.tk.gs[p]) :: cmp(key, *self.root.tk.gs[p]) != 0))

// the node a by-value receiver was copied from, through the owner of its key array
def me(q) = like(ch(q, 0), like(ch(q, 0), arr(q.keys.data)).ko)
def copied(q) = me(q).tk != nil && me(q).n == q.n && me(q)._Type == q._Type && me(q)._MinimumDegree == q._MinimumDegree && me(q).keys.data == q.keys.data && me(q).values.data == q.values.data && me(q).childs.data == q.childs.data

func BTreeNode._ToKeyVec(self) @P14
  requires binv(ch(self, 0)) && copied(self) && bcells(me(self).tk)
  measure me(self).ht
  inv 0 <= ?i && ?i <= self.n && len(?s) == (if ?i == 0 then 0 else kpos(me(self), ?i - 1) + 1 - me(self).a)
  inv 0 <= ?i && (0 < ?i ==> kk(me(self), ?i - 1) == me(self).tk.gs[kpos(me(self), ?i - 1)])
  inv forall j in 0 .. len(?s) :: ?s[j] == *me(self).tk.gs[me(self).a + j]
  ensures [size] len(result.data) == me(self).b - me(self).a
  ensures [entries] forall j in 0 .. len(result.data) :: result.data[j] == *me(self).tk.gs[me(self).a + j]

func BTreeNode._ToValueVec(self) @P14
  requires binv(ch(self, 0)) && copied(self) && bcells(me(self).tk)
  measure me(self).ht
  inv 0 <= ?i && ?i <= self.n && len(?s) == (if ?i == 0 then 0 else kpos(me(self), ?i - 1) + 1 - me(self).a)
  inv 0 <= ?i && (0 < ?i ==> vv(me(self), ?i - 1) == me(self).tk.gv[kpos(me(self), ?i - 1)])
  inv forall j in 0 .. len(?s) :: ?s[j] == *me(self).tk.gv[me(self).a + j]
  ensures [size] len(result.data) == me(self).b - me(self).a
  ensures [entries] forall j in 0 .. len(result.data) :: result.data[j] == *me(self).tk.gv[me(self).a + j]

func BTreeNode._ToVec(self) @P14
  requires binv(ch(self, 0)) && copied(self) && bcells(me(self).tk)
  measure me(self).ht
  inv 0 <= ?i && ?i <= self.n && len(?s) == (if ?i == 0 then 0 else kpos(me(self), ?i - 1) + 1 - me(self).a)
  inv 0 <= ?i && (0 < ?i ==> kk(me(self), ?i - 1) == me(self).tk.gs[kpos(me(self), ?i - 1)] && vv(me(self), ?i - 1) == me(self).tk.gv[kpos(me(self), ?i - 1)])
  inv forall j in 0 .. len(?s) :: ?s[j].Key == *me(self).tk.gs[me(self).a + j]
  inv forall j in 0 .. len(?s) :: ?s[j].Value == *me(self).tk.gv[me(self).a + j]
  ensures [size] len(result.data) == me(self).b - me(self).a
  ensures [keys] forall j in 0 .. len(result.data) :: result.data[j].Key == *me(self).tk.gs[me(self).a + j]
  ensures [values] forall j in 0 .. len(result.data) :: result.data[j].Value == *me(self).tk.gv[me(self).a + j]

func BTreeMap.Keys(self) @P14
  requires bt(self)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [size] len(dyn(result).vec.data) == (if self.root == nil then 0 else self.root.tk.gn)
  ensures [entries] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j] == *self.root.tk.gs[j]

func BTreeMap.Values(self) @P14
  requires bt(self)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [size] len(dyn(result).vec.data) == (if self.root == nil then 0 else self.root.tk.gn)
  ensures [entries] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j] == *self.root.tk.gv[j]

func BTreeMap.IntoIter(self) @P14
  requires bt(self)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [size] len(dyn(result).vec.data) == (if self.root == nil then 0 else self.root.tk.gn)
  ensures [keys] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j].Key == *self.root.tk.gs[j]
  ensures [values] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j].Value == *self.root.tk.gv[j]
