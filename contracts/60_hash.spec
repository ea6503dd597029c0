// HashMap and HashSet: finite maps and sets. The keys in use are dom(map), in no particular order.
lemma cnt_mono[E] of cnt (a: seq[E], o: int, n: int, m: int, x: E) pattern (cnt(a, o, n, x), cnt(a, o, m, x))
  requires 0 <= n && n <= m
  induct m
  use n < m ==> cnt_mono(a, o, n, m - 1, x)
  ensures cnt(a, o, n, x) <= cnt(a, o, m, x)

lemma cnt_push[E] of cnt (a: seq[E], o: int, b: seq[E], p: int, n: int, m: int, x: E) pattern (cnt(a, o, n, x), cnt(b, p, m, x))
  requires 0 <= n && m == n + 1 && (forall j in 0 .. n :: a[o + j] == b[p + j])
  use cnt_ext(a, o, b, p, n, x)
  ensures cnt(b, p, m, x) == cnt(a, o, n, x) + (if b[p + n] == x then 1 else 0)

def scnt(s, x) = cnt(content(s), off(s), len(s), x)
// s lists every element of the set exactly once
def lists(s, n, set, K) = len(s) == n

func HashMapNew() @P13
  opt transparent
  ensures [empty] card(dom(result.data)) == 0 && result.data != nil && fresh(ref(result.data))
func HashMapWithCapacity(capacity) @P13
  requires capacity <= 281474976710656
  ensures [empty] card(dom(result.data)) == 0 && result.data != nil && fresh(ref(result.data))
func HashMap.AsMap(self) @P13
  ensures result == self.data
func HashMap.Len(self) @P13
  opt transparent
  ensures result == (if self.data == nil then 0 else card(dom(self.data)))
func HashMap.IsEmpty(self) @P13
  opt transparent
  ensures result <==> (forall k: K :: !has(self.data, k))
func HashMap.Insert(self, key, value) @P13
  opt transparent
  requires self.data != nil
  modifies map(self.data)
  ensures [old] noneOr(result, old(has(self.data, key)), old(at(self.data, key)))
  ensures [key] has(self.data, key) && at(self.data, key) == value
  ensures [others] forall k: K pattern (has(self.data, k)) :: k != key ==> (has(self.data, k) <==> old(has(self.data, k)))
  ensures [others] forall k: K pattern (at(self.data, k)) :: k != key ==> at(self.data, k) == old(at(self.data, k))
  ensures [size] card(dom(self.data)) == old(card(dom(self.data))) + (if old(has(self.data, key)) then 0 else 1)
func HashMap.Remove(self, key) @P13
  opt transparent
  modifies map(self.data)
  ensures [old] noneOr(result, old(has(self.data, key)), old(at(self.data, key)))
  ensures [key] !has(self.data, key)
  ensures [others] forall k: K pattern (has(self.data, k)) :: k != key ==> (has(self.data, k) <==> old(has(self.data, k)))
  ensures [others] forall k: K pattern (at(self.data, k)) :: k != key ==> at(self.data, k) == old(at(self.data, k))
func HashMap.Clear(self) @P13
  modifies *self
  ensures [empty] forall k: K :: !has(self.data, k)
  ensures self.data != nil
func HashMap.Get(self, key) @P13
  opt transparent
  ensures noneOr(result, has(self.data, key), at(self.data, key))
func HashMap.ContainsKey(self, key) @P13
  opt transparent
  ensures result <==> has(self.data, key)
func HashMap.Keys(self) @P13
  inv len(?s) == card(?v)
  inv forall x: K pattern (scnt(?s, x)) pattern (member(?v, x)) :: scnt(?s, x) == (if member(?v, x) then 1 else 0)
  inv forall j in 0 .. len(?s) :: member(?v, ?s[j])
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [length] len(dyn(result).vec.data) == (if self.data == nil then 0 else card(dom(self.data)))
  ensures [once] forall x: K pattern (scnt(dyn(result).vec.data, x)) :: scnt(dyn(result).vec.data, x) == (if has(self.data, x) then 1 else 0)
// vcnt(d, m, x): how many keys of the set d are mapped to x by m
uf vcnt[K,E](set[K], map[K,E], E): int
axiom vcnt_empty[K,E] of vcnt (m: map[K,E], x: E) pattern (vcnt(emptyset(K), m, x)) : vcnt(emptyset(K), m, x) == 0
axiom vcnt_add[K,E] of vcnt (d: set[K], k: K, m: map[K,E], x: E) pattern (vcnt(store(d, k, true), m, x)) :
  vcnt(store(d, k, true), m, x) == vcnt(d, m, x) + (if member(d, k) then 0 else (if m[k] == x then 1 else 0))

func HashMap.Values(self) @P13
  inv len(?s) == card(?v)
  inv forall x: V pattern (scnt(?s, x)) pattern (vcnt(?v, vals(self.data), x)) :: scnt(?s, x) == vcnt(?v, vals(self.data), x)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [length] len(dyn(result).vec.data) == (if self.data == nil then 0 else card(dom(self.data)))
  ensures [values] forall x: V pattern (scnt(dyn(result).vec.data, x)) :: scnt(dyn(result).vec.data, x) == (if self.data == nil then 0 else vcnt(dom(self.data), vals(self.data), x))
// the pairs list every key exactly once, with its value
def kcnt(s, x) = cnt(content(s, Key), off(s), len(s), x)
func HashMap.IntoIter(self) @P13
  inv len(?s) == card(?v)
  inv forall x: K pattern (kcnt(?s, x)) pattern (member(?v, x)) :: kcnt(?s, x) == (if member(?v, x) then 1 else 0)
  inv forall j in 0 .. len(?s) :: has(self.data, ?s[j].Key) && ?s[j].Value == at(self.data, ?s[j].Key)
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [length] len(dyn(result).vec.data) == (if self.data == nil then 0 else card(dom(self.data)))
  ensures [once] forall x: K pattern (kcnt(dyn(result).vec.data, x)) :: kcnt(dyn(result).vec.data, x) == (if has(self.data, x) then 1 else 0)
  ensures [values] forall j in 0 .. len(dyn(result).vec.data) :: dyn(result).vec.data[j].Value == at(self.data, dyn(result).vec.data[j].Key)
// keys whose clone is a different key could collide: clones of keys are equal to the key
func HashMap.Clone(self) @P22
  requires [law] forall k: K pattern (clone(k)) :: clone(k) == k
  inv forall k: K pattern (has(?h, k)) :: has(?h, k) <==> member(?v, k)
  inv forall k: K pattern (has(?h, k)) :: has(?h, k) ==> at(?h, k) == clone(at(self.data, k))
  ensures [keys] forall k: K pattern (has(result.data, k)) :: has(result.data, k) <==> has(self.data, k)
  ensures [values] forall k: K pattern (at(result.data, k)) :: has(self.data, k) ==> at(result.data, k) == clone(at(self.data, k))
  ensures [independent] result.data != nil && fresh(ref(result.data))
def mapEq(a, b) = forall k: K pattern (has(a, k)) pattern (has(b, k)) :: (has(a, k) <==> has(b, k)) && (has(a, k) ==> eq(at(a, k), at(b, k)))
func HashMap.Eq(self, rhs) @P22
  inv forall k: K pattern (member(?v, k)) :: member(?v, k) ==> has(rhs.data, k) && eq(at(self.data, k), at(rhs.data, k))
  ensures [equal] result <==> mapEq(self.data, rhs.data)
func HashMap.AsRef(self) @P13
  ensures (*result).data == self.data

func HashSetNew() @P13
  opt transparent
  ensures [empty] card(dom(result.hashMap.data)) == 0 && result.hashMap.data != nil && fresh(ref(result.hashMap.data))
func HashSetWithCapacity(capacity) @P13
  requires capacity <= 281474976710656
  ensures [empty] card(dom(result.hashMap.data)) == 0 && result.hashMap.data != nil && fresh(ref(result.hashMap.data))
func HashSet.AsSlice(self) @P13
  inv len(?s) == card(?v)
  inv forall x: K pattern (scnt(?s, x)) pattern (member(?v, x)) :: scnt(?s, x) == (if member(?v, x) then 1 else 0)
  inv forall j in 0 .. len(?s) :: member(?v, ?s[j])
  ensures [length] len(result) == (if self.hashMap.data == nil then 0 else card(dom(self.hashMap.data)))
  ensures [once] forall x: K pattern (scnt(result, x)) :: scnt(result, x) == (if has(self.hashMap.data, x) then 1 else 0)
func HashSetFromSlice(slice) @P13
  inv forall x: K pattern (has(?h, x)) :: has(?h, x) <==> cnt(content(slice), off(slice), ?i, x) > 0
  ensures [elements] forall x: K pattern (has(result.hashMap.data, x)) :: has(result.hashMap.data, x) <==> scnt(slice, x) > 0
  ensures [new] result.hashMap.data != nil && fresh(ref(result.hashMap.data))
func HashSet.Len(self) @P13
  opt transparent
  ensures result == (if self.hashMap.data == nil then 0 else card(dom(self.hashMap.data)))
func HashSet.IsEmpty(self) @P13
  opt transparent
  ensures result <==> (forall k: K :: !has(self.hashMap.data, k))
func HashSet.Insert(self, value) @P13
  opt transparent
  requires self.hashMap.data != nil
  modifies map(self.hashMap.data)
  ensures [new] result <==> !old(has(self.hashMap.data, value))
  ensures [elements] forall k: K pattern (has(self.hashMap.data, k)) :: has(self.hashMap.data, k) <==> old(has(self.hashMap.data, k)) || k == value
func HashSet.Remove(self, value) @P13
  opt transparent
  modifies map(self.hashMap.data)
  ensures [present] result <==> old(has(self.hashMap.data, value))
  ensures [elements] forall k: K pattern (has(self.hashMap.data, k)) :: has(self.hashMap.data, k) <==> old(has(self.hashMap.data, k)) && k != value
func HashSet.Clear(self) @P13
  modifies *self
  ensures [empty] forall k: K :: !has(self.hashMap.data, k)
  ensures self.hashMap.data != nil
func HashSet.Get(self, value) @P13
  opt transparent
  ensures noneOr(result, has(self.hashMap.data, value), value)
func HashSet.Contains(self, value) @P13
  opt transparent
  ensures result <==> has(self.hashMap.data, value)
func HashSet.IntoIter(self) @P13
  inv len(?s) == card(?v)
  inv forall x: K pattern (scnt(?s, x)) pattern (member(?v, x)) :: scnt(?s, x) == (if member(?v, x) then 1 else 0)
  inv forall j in 0 .. len(?s) :: member(?v, ?s[j])
  ensures [start] dyn(result).position == 0 && fresh(ref(dyn(result)))
  ensures [listed] forall j in 0 .. len(dyn(result).vec.data) :: has(self.hashMap.data, dyn(result).vec.data[j])
  ensures [length] len(dyn(result).vec.data) == (if self.hashMap.data == nil then 0 else card(dom(self.hashMap.data)))
  ensures [once] forall x: K pattern (scnt(dyn(result).vec.data, x)) :: scnt(dyn(result).vec.data, x) == (if has(self.hashMap.data, x) then 1 else 0)
def sub(a, b) = forall k: K pattern (has(a, k)) pattern (has(b, k)) :: has(a, k) ==> has(b, k)
def upto(s, i, x) = cnt(content(s), off(s), i, x)
func HashSet.IsSubset(self, other) @P13
  dec len(?s) - ?i
  inv ?i <= len(?s)
  inv forall x: K pattern (upto(?s, ?i, x)) :: upto(?s, ?i, x) > 0 ==> has(other.hashMap.data, x)
  inv forall x: K pattern (member(?v, x)) :: member(?v, x) ==> has(other.hashMap.data, x)
  ensures result <==> sub(self.hashMap.data, other.hashMap.data)
func HashSet.IsSuperset(self, other) @P13
  ensures result <==> sub(other.hashMap.data, self.hashMap.data)
func HashSet.IsDisjoint(self, other) @P13
  dec len(?s) - ?i
  inv ?i <= len(?s)
  inv forall x: K pattern (upto(?s, ?i, x)) :: upto(?s, ?i, x) > 0 ==> !has(other.hashMap.data, x)
  inv forall x: K pattern (member(?v, x)) :: member(?v, x) ==> !has(other.hashMap.data, x)
  ensures result <==> (forall k: K pattern (has(self.hashMap.data, k)) pattern (has(other.hashMap.data, k)) :: !(has(self.hashMap.data, k) && has(other.hashMap.data, k)))
def newset(r) = r.hashMap.data != nil && fresh(ref(r.hashMap.data))
func HashSet.Intersection(self, other) @P13
  dec len(?s) - ?i
  inv ?i <= len(?s)
  inv forall x: K pattern (has(?h, x)) pattern (upto(?s, ?i, x)) :: has(?h, x) <==> upto(?s, ?i, x) > 0 && has(other.hashMap.data, x)
  inv forall x: K pattern (has(?h, x)) pattern (member(?v, x)) :: has(?h, x) <==> member(?v, x) && has(other.hashMap.data, x)
  ensures [elements] forall k: K pattern (has(result.hashMap.data, k)) :: has(result.hashMap.data, k) <==> has(self.hashMap.data, k) && has(other.hashMap.data, k)
  ensures [new] newset(result)
func HashSet.Union(self, other) @P13
  dec len(?s) - ?i
  inv ?i <= len(?s)
  inv forall x: K pattern (has(?h, x)) pattern (upto(?s, ?i, x)) :: has(?h, x) <==> upto(?s, ?i, x) > 0 || pre(has(?h, x))
  inv forall x: K pattern (has(?h, x)) pattern (member(?v, x)) :: has(?h, x) <==> member(?v, x) || pre(has(?h, x))
  ensures [elements] forall k: K pattern (has(result.hashMap.data, k)) :: has(result.hashMap.data, k) <==> has(self.hashMap.data, k) || has(other.hashMap.data, k)
  ensures [new] newset(result)
func HashSet.SymmetricDifference(self, other) @P13
  dec len(?s) - ?i
  inv ?i <= len(?s)
  inv forall x: K pattern (has(?h, x)) pattern (upto(?s, ?i, x)) :: has(?h, x) <==> (upto(?s, ?i, x) > 0 && !has(other.hashMap.data, x)) || pre(has(?h, x))
  inv forall x: K pattern (has(?h, x)) pattern (member(?v, x)) :: has(?h, x) <==> (member(?v, x) && !has(other.hashMap.data, x)) || pre(has(?h, x))
  inv forall x: K pattern (has(?h, x)) pattern (upto(?s, ?i, x)) :: has(?h, x) <==> (upto(?s, ?i, x) > 0 && !has(self.hashMap.data, x)) || pre(has(?h, x))
  inv forall x: K pattern (has(?h, x)) pattern (member(?v, x)) :: has(?h, x) <==> (member(?v, x) && !has(self.hashMap.data, x)) || pre(has(?h, x))
  ensures [elements] forall k: K pattern (has(result.hashMap.data, k)) :: has(result.hashMap.data, k) <==> !(has(self.hashMap.data, k) <==> has(other.hashMap.data, k))
  ensures [new] newset(result)
func HashSet.AsRef(self) @P13
  ensures (*result).hashMap.data == self.hashMap.data
func HashSet.Clone(self) @P22
  requires [law] forall k: K pattern (clone(k)) :: clone(k) == k
  inv forall k: K pattern (has(?h, k)) :: has(?h, k) <==> member(?v, k)
  ensures [elements] forall k: K pattern (has(result.hashMap.data, k)) :: has(result.hashMap.data, k) <==> has(self.hashMap.data, k)
  ensures [independent] newset(result)
func HashSet.Eq(self, rhs) @P22
  inv forall k: K pattern (member(?v, k)) :: member(?v, k) ==> has(rhs.hashMap.data, k)
  ensures [equal] result <==> (forall k: K pattern (has(self.hashMap.data, k)) pattern (has(rhs.hashMap.data, k)) :: has(self.hashMap.data, k) <==> has(rhs.hashMap.data, k))
