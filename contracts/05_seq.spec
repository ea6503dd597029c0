// Sequences of any element type: counting occurrences.
// cnt(a, o, n, x): how often x occurs among a[o] .. a[o+n-1]
uf cnt[E](seq[E], int, int, E): int
axiom cnt_zero[E] of cnt (a: seq[E], o: int, x: E) pattern (cnt(a, o, 0, x)) : cnt(a, o, 0, x) == 0
axiom cnt_step[E] of cnt (a: seq[E], o: int, n: int, m: int, x: E) pattern (cnt(a, o, n, x), cnt(a, o, m, x)) :
  m == n + 1 && 0 <= n ==> cnt(a, o, m, x) == cnt(a, o, n, x) + (if a[o + n] == x then 1 else 0)
lemma cnt_ext[E] of cnt (a: seq[E], o: int, b: seq[E], p: int, n: int, x: E) pattern (cnt(a, o, n, x), cnt(b, p, n, x))
  requires 0 <= n && (forall j in 0 .. n :: a[o + j] == b[p + j])
  induct n
  ensures cnt(a, o, n, x) == cnt(b, p, n, x)
lemma cnt_store[E] of cnt (a: seq[E], k: int, y: E, o: int, n: int, x: E) pattern (cnt(store(a, k, y), o, n, x))
  requires 0 <= n
  induct n
  ensures cnt(store(a, k, y), o, n, x) == cnt(a, o, n, x) + (if o <= k && k < o + n then (if y == x then 1 else 0) - (if a[k] == x then 1 else 0) else 0)
lemma cnt_bounds[E] of cnt (a: seq[E], o: int, n: int, x: E) pattern (cnt(a, o, n, x))
  requires 0 <= n
  induct n
  ensures 0 <= cnt(a, o, n, x) && cnt(a, o, n, x) <= n

// permd(a, o, b, p, n): the n elements of a from o are those of b from p in some order
uf permd[E](seq[E], int, seq[E], int, int): bool
axiom permd_elim[E] of permd (a: seq[E], o: int, b: seq[E], p: int, n: int, c: seq[E], q: int, x: E) pattern (permd(a, o, b, p, n), cnt(c, q, n, x)) :
  permd(a, o, b, p, n) ==> cnt(a, o, n, x) == cnt(b, p, n, x)
axiom permd_intro[E] of permd (a: seq[E], o: int, b: seq[E], p: int, n: int) pattern (permd(a, o, b, p, n)) :
  (forall x: E pattern (cnt(a, o, n, x)) :: cnt(a, o, n, x) == cnt(b, p, n, x)) ==> permd(a, o, b, p, n)

// stably(a, o, b, p, n): sorting those n elements of b stably by some order gives those of a; it only depends on the elements
uf stably[E](seq[E], int, seq[E], int, int): bool
axiom stably_ext[E] of stably (a: seq[E], o: int, b: seq[E], p: int, n: int, c: seq[E], q: int, d: seq[E], r: int) pattern (stably(a, o, b, p, n), stably(c, q, d, r, n)) :
  stably(a, o, b, p, n) && (forall j in 0 .. n :: c[q + j] == a[o + j]) && (forall j in 0 .. n :: d[r + j] == b[p + j]) ==> stably(c, q, d, r, n)

// shift(a, o): the sequence that starts at position o of a
uf shift[E](seq[E], int): seq[E]
axiom shift_at[E] of shift (a: seq[E], o: int, j: int) pattern (shift(a, o)[j]) : shift(a, o)[j] == a[o + j]
axiom shift_store[E] of shift (a: seq[E], k: int, y: E, o: int) pattern (shift(store(a, k, y), o)) : shift(store(a, k, y), o) == store(shift(a, o), k - o, y)

// joined(a, o, n): the display texts of the n elements of a from o, separated by ", "
uf joined[E](seq[E], int, int): string
axiom joined_zero[E] of joined (a: seq[E], o: int) pattern (joined(a, o, 0)) : joined(a, o, 0) == ""
axiom joined_step[E] of joined (a: seq[E], o: int, n: int, m: int) pattern (joined(a, o, n), joined(a, o, m)) :
  0 <= n && m == n + 1 ==> joined(a, o, m) == joined(a, o, n) + (if n == 0 then "" else ", ") + display(a[o + n])
