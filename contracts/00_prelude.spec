// Shared vocabulary.
def isSome(o) = o.value != nil
def isNone(o) = o.value == nil
def got(o) = *(o.value)
def noneOr(o, cond, x) = (isSome(o) <==> cond) && (cond ==> *(o.value) == x)
def min2(a, b) = if a <= b then a else b
def max2(a, b) = if a <= b then b else a
def clamp(lo, hi, x) = if x < lo then lo else (if hi < x then hi else x)
def inT(lo, hi, x) = lo <= x && x <= hi
def sgn(x) = if x < 0 then -1 else (if x > 0 then 1 else 0)
