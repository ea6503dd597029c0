From 9750f580fb09670d13926bfac81af273fe1887fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 01/29] fix: shift primitive integers by rhs instead of by
 themselves

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From bea8473db83cb06f69c0040343def731a93dc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 02/29] fix: ISize.WrappingMul must not adjust an already
 wrapped product

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..90e0c50 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From 8dc4031254937add229e3364d68bd8379f53e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 03/29] fix: signed subtraction overflow detection (CheckedSub,
 ISize.SaturatingSub)

---
 ops.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ops.go b/ops.go
index 90e0c50..9c43312 100644
--- a/ops.go
+++ b/ops.go
@@ -1057,40 +1057,40 @@ func (self ISize) _HasOverflow_Sub(rhs ISize) bool {
 }
 
 func (self I8) _HasOverflow_Sub(rhs I8) bool {
-	if self > 0 && rhs < math.MinInt8+self {
+	if rhs < 0 && self > math.MaxInt8+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt8+self {
+	if rhs > 0 && self < math.MinInt8+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I16) _HasOverflow_Sub(rhs I16) bool {
-	if self > 0 && rhs < math.MinInt16+self {
+	if rhs < 0 && self > math.MaxInt16+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt16+self {
+	if rhs > 0 && self < math.MinInt16+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I32) _HasOverflow_Sub(rhs I32) bool {
-	if self > 0 && rhs < math.MinInt32+self {
+	if rhs < 0 && self > math.MaxInt32+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt32+self {
+	if rhs > 0 && self < math.MinInt32+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I64) _HasOverflow_Sub(rhs I64) bool {
-	if self > 0 && rhs < math.MinInt64+self {
+	if rhs < 0 && self > math.MaxInt64+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt64+self {
+	if rhs > 0 && self < math.MinInt64+rhs {
 		return true
 	}
 	return false
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
@@ -1780,7 +1780,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1789,7 +1789,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1799,7 +1799,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1809,7 +1809,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From 0bd61e6004a5110cf3b22201cf37f36eeabe790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 04/29] fix: multiplication overflow detection and saturation
 bound of integers

---
 ops.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ops.go b/ops.go
index 9c43312..4aae4e8 100644
--- a/ops.go
+++ b/ops.go
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
@@ -2443,7 +2443,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2454,7 +2454,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2465,7 +2465,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2476,7 +2476,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2487,7 +2487,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From 72b56e1452ecd88ea091eef27bbaae496251e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 05/29] fix: signed CheckedRem reported None for ordinary
 negative operands

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 4aae4e8..f62e877 100644
--- a/ops.go
+++ b/ops.go
@@ -2081,7 +2081,7 @@ func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[ISize]()
 	}
@@ -2095,7 +2095,7 @@ func (self I8) CheckedRem(rhs I8) Option[I8] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I8]()
 	}
@@ -2109,7 +2109,7 @@ func (self I16) CheckedRem(rhs I16) Option[I16] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -2123,7 +2123,7 @@ func (self I32) CheckedRem(rhs I32) Option[I32] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -2137,7 +2137,7 @@ func (self I64) CheckedRem(rhs I64) Option[I64] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From 196cf84df75382b5fd9226abb0ac6aebb1ea5951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 06/29] fix: Option.And and AndThen of None must be None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From 4679b62138eadf06aae735c0852a45f81b24912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 07/29] fix: Option.Replace must leave a Some in place of a
 None

---
 option.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/option.go b/option.go
index ea7c79a..a52663f 100644
--- a/option.go
+++ b/option.go
@@ -332,13 +332,9 @@ func (self *Option[T]) Take() Option[T] {
 //	x := None[gost.I32]()
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
-	if self.IsNone() {
-		return *self
-	} else {
-		oldValue := *self.value
-		self.value = &value
-		return Some[T](oldValue)
-	}
+	old := *self
+	self.value = &value
+	return old
 }
 
 // impl Display for Option
-- 
2.43.0


From 32a4a0fbf59629691e3a53341d61c1c9b8be592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 08/29] fix: ElseIf must not run after a branch already taken

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..583d0f3 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if self.returnValue == nil && condition {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From 78c226f8c04d3d0b875513e0af0b10e7cded14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 09/29] fix: Vec.Reserve must not append zero elements

---
 vec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..e9055de 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,9 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		newData := make([]T, self.Len(), self.Len()+additional)
+		copy(newData, self.data)
+		self.data = newData
 	}
 }
 
-- 
2.43.0


From d6c9d03404dc968edc222ada098f239f48a871da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:52 +0000
Subject: [PATCH 10/29] fix: Vec.DedupByKey must compare consecutive elements
 only

---
 vec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vec.go b/vec.go
index e9055de..352c2d8 100644
--- a/vec.go
+++ b/vec.go
@@ -183,11 +183,8 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
-		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+	for i, value := range self.data {
+		if i == 0 || key(value) != key(self.data[i-1]) {
 			newData = append(newData, value)
 		}
 	}
-- 
2.43.0


From 77ffe1388d303cc3aad4278dd6927a5e253f13a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 11/29] fix: VecDeque sorting, searching and AsSlice must
 respect the head of the ring

---
 vec_deque.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..1de8c6d 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,6 +341,8 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
+	self._MakeContiguous()
+
 	return self.buffer[:self.len]
 }
 
@@ -413,7 +415,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +459,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
@@ -491,6 +493,8 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -525,6 +529,8 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -540,6 +546,8 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -574,11 +582,28 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
 }
 
+// Rotates the elements so that they lie in order at the start of the buffer.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	newBuffer := make([]T, len(self.buffer))
+	for i := USize(0); i < self.len; i++ {
+		newBuffer[i] = self.GetUnchecked(i)
+	}
+
+	self.buffer = newBuffer
+	self.head = 0
+}
+
 // Returns `true` if the buffer is at full capacity.
 func (self VecDeque[T]) _IsFull() bool {
 	return self.len == USize(len(self.buffer))
-- 
2.43.0


From 4f60ffc8dfff6ec313003b4331f44489fe9a1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 12/29] fix: VecDequeIter.Rev must terminate and the adapters
 must start at the current position

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 1de8c6d..a89a09b 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -747,7 +747,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -758,7 +758,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -772,7 +772,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -783,8 +783,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -794,7 +794,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -805,7 +805,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From bbed795eaa91560de4d042dcc4fa2eefc86b233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:40 +0000
Subject: [PATCH 13/29] fix: VecDeque.Clone must clone the elements like the
 other containers

---
 vec_deque.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index a89a09b..e7ffea4 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -854,7 +854,8 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := castToClone(self.Get(i).Unwrap()).Unwrap()
+		cloned.PushBack(e.Clone())
 	}
 
 	return &cloned
-- 
2.43.0


From e9713d3df546a019f76c3957da531799a44e4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 14/29] fix: BinaryHeap.Append must leave the other heap empty

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 9764c18c6319e4197c7ccae3346685e9d9b080b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 15/29] fix: Rev of a partially consumed iterator must yield
 the remaining elements only

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 vec.go       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..17889e5 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -827,8 +827,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -941,8 +941,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1055,8 +1055,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 6a00e57..2fc55f7 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -368,8 +368,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..706f067 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..1eb34f5 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/vec.go b/vec.go
index 352c2d8..0a1e8b5 100644
--- a/vec.go
+++ b/vec.go
@@ -593,8 +593,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 9bccb19852607e2b38866ed163d87e69b0c8669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 16/29] fix: LinkedListIter.Rev must reverse the order

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From 81bd786265ea6a5e0ec8fa80128578e80b0260fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 17/29] fix: CollectToVec of the map and set iterators must
 start at the current position

---
 btree_map.go | 6 +++---
 btree_set.go | 2 +-
 hash_map.go  | 6 +++---
 hash_set.go  | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 17889e5..24fd987 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -843,7 +843,7 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	return VecIter[Pair[K, V]]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -957,7 +957,7 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -1071,7 +1071,7 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	return VecIter[V]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 2fc55f7..8803c6d 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -384,7 +384,7 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 706f067..2e8d7b1 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,7 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	return VecIter[Pair[K, V]]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -319,7 +319,7 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -427,7 +427,7 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	return VecIter[V]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 1eb34f5..200cdb7 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,7 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
-- 
2.43.0


From d9585ab9389d2f6a6066480a86b2f23f1cf68447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 18/29] fix: 128-bit shifts must move every bit that crosses
 the halves

---
 bitwise.go | 56 +++++++++++++++++++-----------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..cbbc6ef 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,18 +29,14 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// bits of the low half that move into the high half
+	if rhs.low < 64 {
+		high |= I64(lhs.low >> (64 - rhs.low))
+	} else {
+		high = I64(lhs.low << (rhs.low - 64))
 	}
 
 	return I128{
@@ -70,18 +66,14 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
 	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	// bits of the low half that move into the high half
+	if rhs.low < 64 {
+		high |= lhs.low >> (64 - rhs.low)
+	} else {
+		high = lhs.low << (rhs.low - 64)
 	}
 
 	return U128{
@@ -111,18 +103,14 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// bits of the high half that move into the low half
+	if rhs.low < 64 {
+		low |= U64(lhs.high << (64 - rhs.low))
+	} else {
+		low = U64(lhs.high >> (rhs.low - 64))
 	}
 
 	return I128{
@@ -152,18 +140,14 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// bits of the high half that move into the low half
+	if rhs.low < 64 {
+		low |= lhs.high << (64 - rhs.low)
+	} else {
+		low = lhs.high >> (rhs.low - 64)
 	}
 
 	return U128{
-- 
2.43.0


From 54306d9375bc9b3efa51186d360de3a6a665779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 19/29] fix: I128.Neg must carry into the high half exactly
 when the low half is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index f62e877..77ddf34 100644
--- a/ops.go
+++ b/ops.go
@@ -3048,7 +3048,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 2a96aa163973a582b3ddfd35478c8db0c57f44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:27 +0000
Subject: [PATCH 20/29] fix: I128.IsPositive must look at the low half as well

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 77ddf34..eb0a626 100644
--- a/ops.go
+++ b/ops.go
@@ -2851,7 +2851,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From aff3fe110d43aaae569f0b3e9007e3634e95caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 21/29] fix: I128 division and remainder must work on the
 magnitude of I128_MIN

---
 ops.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ops.go b/ops.go
index eb0a626..71baaf1 100644
--- a/ops.go
+++ b/ops.go
@@ -405,7 +405,11 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// The magnitude of I128_MIN only fits into the unsigned type
+	leftMagnitude := U128{high: U64(lhs.high), low: lhs.low}
+	rightMagnitude := U128{high: U64(rhs.high), low: rhs.low}
+
+	if leftMagnitude.Cmp(rightMagnitude) == OrderingLess {
 		return I128{
 			high: 0,
 			low:  0,
@@ -416,8 +420,8 @@ func (lhs I128) Div(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(leftMagnitude.ToString()), 10)
+	bigRhs.SetString(string(rightMagnitude.ToString()), 10)
 
 	bigLhs.Div(bigLhs, bigRhs)
 
@@ -554,7 +558,11 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	// The magnitude of I128_MIN only fits into the unsigned type
+	leftMagnitude := U128{high: U64(lhs.high), low: lhs.low}
+	rightMagnitude := U128{high: U64(rhs.high), low: rhs.low}
+
+	if leftMagnitude.Cmp(rightMagnitude) == OrderingLess {
 		if isNegative {
 			return lhs.Neg()
 		} else {
@@ -566,8 +574,8 @@ func (lhs I128) Rem(rhs I128) I128 {
 	bigLhs := big.NewInt(0)
 	bigRhs := big.NewInt(0)
 
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
+	bigLhs.SetString(string(leftMagnitude.ToString()), 10)
+	bigRhs.SetString(string(rightMagnitude.ToString()), 10)
 
 	bigLhs.Rem(bigLhs, bigRhs)
 
-- 
2.43.0


From 6476fe6419e1b34540745dd09500ac8d2379eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 22/29] fix: BTreeMap nodes must be split at the minimum degree
 and only when full

---
 btree_map.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 24fd987..245c4ea 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -414,7 +415,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +444,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < z.n; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +470,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From 3c4240b38b38658b90c1f4dcb4cdf4172b7c5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:38 +0000
Subject: [PATCH 23/29] fix: BTreeMap search must stop at the keys in use,
 Remove must return the removed value

---
 btree_map.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 245c4ea..35594c8 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -185,7 +185,8 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		return None[V]()
 	}
 
-	result, index := self.root._Search(key)
+	// Removing moves entries between nodes, so the value has to be read before
+	removed := self.Get(key)
 
 	// Call the remove function for root
 	self.root._Remove(key)
@@ -200,12 +201,11 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
+	if removed.IsSome() {
 		self.len--
-		return Some(*result.Unwrap().values.data[index])
 	}
+
+	return removed
 }
 
 // Debug only
@@ -313,16 +313,16 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 }
 
 // Function to search key k in subtree rooted with this node
-func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
+func (self *BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
-		return Some[*BTreeNode[K, V]](&self), uint(i)
+	if i < USize(self.n) && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+		return Some[*BTreeNode[K, V]](self), uint(i)
 	}
 
 	// If key is not found here and this is a leaf node
-- 
2.43.0


From 2848dc182a21175115107ba54d4eddd2568e72eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:49 +0000
Subject: [PATCH 24/29] fix: BTreeMap traversals must visit the last child and
 only the keys in use

---
 btree_map.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 35594c8..d7948f0 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -236,7 +236,7 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -252,6 +252,14 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	// The child after the last key
+	if self._Type != _LEAF {
+		if self.childs.GetUnchecked(i) != nil {
+			childsVec := self.childs.GetUnchecked(i)._ToVec()
+			vec.Append(&childsVec)
+		}
+	}
+
 	return vec
 }
 
@@ -263,7 +271,7 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -281,6 +289,14 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	// The child after the last key
+	if self._Type != _LEAF {
+		if self.childs.GetUnchecked(i) != nil {
+			childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+			vec.Append(&childsVec)
+		}
+	}
+
 	return vec
 }
 
@@ -292,7 +308,7 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -309,6 +325,14 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	// The child after the last key
+	if self._Type != _LEAF {
+		if self.childs.GetUnchecked(i) != nil {
+			childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+			vec.Append(&childsVec)
+		}
+	}
+
 	return vec
 }
 
-- 
2.43.0


From 7bfca9d1de8f5c6b07df54d6d0a7e0af56a0714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:09 +0000
Subject: [PATCH 25/29] fix: iterating an empty BTreeSet and cloning a BTreeSet
 must end

---
 btree_set.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/btree_set.go b/btree_set.go
index 8803c6d..8d5b3ac 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
@@ -437,8 +441,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From db56f5688dded59c93d05b720b5261b63535906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:59 +0000
Subject: [PATCH 26/29] fix: USize.ToString must not go through a signed
 integer

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From 02ab8bef6f388777cbc4b929674e0fad688bff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:38 +0000
Subject: [PATCH 27/29] fix: String.ParseU64 must cover the whole range of U64
 and reject negative numbers

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..baa1788 100644
--- a/string.go
+++ b/string.go
@@ -130,7 +130,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From debdbe966f280cfd7a5b4bd7a9de35aebc3defd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:38 +0000
Subject: [PATCH 28/29] fix: StringFromUTF16 must decode every unit and report
 unpaired surrogates

---
 string.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index baa1788..3eae48b 100644
--- a/string.go
+++ b/string.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 	"unicode/utf16"
@@ -16,7 +17,13 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
+		// a surrogate is valid only as half of a high-low pair
+		if isHighSurrogate(data[i]) && (i+1 == len(data) || !isLowSurrogate(data[i+1])) ||
+			isLowSurrogate(data[i]) && (i == 0 || !isHighSurrogate(data[i-1])) {
+			return Err[String](errors.New("invalid UTF-16"))
+		}
+
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
@@ -25,6 +32,14 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	return Ok[String](String(decoded))
 }
 
+func isHighSurrogate(unit U16) bool {
+	return 0xd800 <= unit && unit < 0xdc00
+}
+
+func isLowSurrogate(unit U16) bool {
+	return 0xdc00 <= unit && unit < 0xe000
+}
+
 // Converts a String into a byte vector.
 // This consumes the String, so we do not need to copy its contents.
 func (self String) IntoBytes() Vec[U8] {
-- 
2.43.0


From b3e4d1f18d24f20b9b8a23322dea952d0cce25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:38 +0000
Subject: [PATCH 29/29] fix: String.Pop must leave the bytes before the last
 character alone

---
 string.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/string.go b/string.go
index 3eae48b..f46d206 100644
--- a/string.go
+++ b/string.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Converts a vector of bytes to a String.
@@ -76,10 +77,8 @@ func (self *String) Pop() Option[Char] {
 		return None[Char]()
 	}
 
-	runes := []rune(*self)
-
-	last := runes[len(runes)-1]
-	*self = String(runes[:len(runes)-1])
+	last, size := utf8.DecodeLastRuneInString(string(*self))
+	*self = (*self)[:len(*self)-size]
 
 	return Some[Char](Char(last))
 }
-- 
2.43.0

