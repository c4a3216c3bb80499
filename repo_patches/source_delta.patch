From f8168226470b048ddc6183a81278282bca1520ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 01/27] fix: sparse vectors look beyond the number of stored
 elements

SparseVector.index compared the position with how many elements are
stored instead of with the last stored position, so any stored element
whose position exceeded the count was not found: reads returned zero and
writes inserted a second entry for the same position.
---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From 4f52044ac5c87a33c8ed3ce598fc04cd8ded3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 02/27] fix: shrinking a dense vector keeps the wrong number of
 elements

ReSize(n) with n below the length kept length-n elements instead of n.
---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index d68a835..7709d3c 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From d16e55dc2cfbeb481f0c08060dfccedf20f85eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 03/27] fix: vectors accept any column in At and Element

A vector has one column; DenseVector.At and the Element methods of both
vectors ignored the column, so an invalid one was not rejected.
---
 denseVector.go  | 8 ++++++++
 sparseVector.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/denseVector.go b/denseVector.go
index 7709d3c..60d9af7 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -129,6 +129,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -350,5 +354,9 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..166697d 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -367,5 +367,9 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r) > Default[T]()
 }
-- 
2.43.0


From c3cc814b10b0362d5d894f0ddc897a8459f356d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 04/27] fix: negative mask values count as false

Element documents the value cast to Boolean, which is true for every
nonzero value; negative ones were treated as false.
---
 cscMatrix.go    | 2 +-
 csrMatrix.go    | 2 +-
 denseMatrix.go  | 2 +-
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..b929527 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -413,7 +413,7 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..6a19c7d 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -403,7 +403,7 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/denseMatrix.go b/denseMatrix.go
index 220637f..46f8847 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -362,5 +362,5 @@ func (s *DenseMatrixNumber[T]) Element(r, c int) bool {
 }
 
 func (s *DenseMatrixNumber[T]) element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseVector.go b/denseVector.go
index 60d9af7..98642ad 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -358,5 +358,5 @@ func (s *DenseVectorNumber[T]) Element(r, c int) bool {
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 166697d..067ce9e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -371,5 +371,5 @@ func (s *SparseVector[T]) Element(r, c int) bool {
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
-- 
2.43.0


From 298b7de1f4ca7ec4fb1d2900a14f57838e7c512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 05/27] fix: reading a compressed matrix writes to it

At and Element of the compressed formats went through Update, which
stores the value back, so concurrent readers of one matrix raced.
---
 cscMatrix.go    | 26 +++++++++++++++-----------
 csrMatrix.go    | 26 +++++++++++++++-----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index b929527..e5718fd 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -411,11 +420,6 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 }
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
-func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+func (s *CSCMatrix[T]) Element(r, c int) bool {
+	return s.At(r, c) != Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 6a19c7d..5277a84 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -401,11 +410,6 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 }
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
-func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+func (s *CSRMatrix[T]) Element(r, c int) bool {
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index 067ce9e..55e015b 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 9794e63e7d7bc681868eedc1c84735ab0172135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 06/27] fix: mapping an element to zero breaks the map
 iterators

Removing the current element moves the following ones back by one; the
iterators of the compressed formats did not move with them, so elements
were skipped, the loop panicked or never ended.
---
 cscMatrix.go    | 2 ++
 csrMatrix.go    | 2 ++
 sparseVector.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index e5718fd..49de999 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -416,6 +416,8 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index 5277a84..6724229 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -406,6 +406,8 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 55e015b..ebdbef6 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -365,6 +365,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 4e696f530e0504956749009cb485720d85f147fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 07/27] fix: a cancelled Scalar spins forever

The break only left the select, so the loop never advanced.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index aa18ffa..cbc760f 100644
--- a/operators.go
+++ b/operators.go
@@ -559,7 +559,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From 2974af69a6e2a31f9b750656d7bdf82678e25c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 08/27] fix: Negative ignores its source

It negated whatever the output already held and never read s, so an
output other than a copy of s got the wrong result.
---
 operators.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/operators.go b/operators.go
index cbc760f..d37afdb 100644
--- a/operators.go
+++ b/operators.go
@@ -379,6 +379,22 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	if s != matrix {
+		for iterator := s.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, value := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, -value)
+				}
+			}
+		}
+
+		return
+	}
+
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 567d31da2f9c1e76189bbefc14e941ce989fd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 09/27] fix: Add loses elements only one sparse operand has

Only the stored elements of one operand were enumerated; elements of the
other at positions where the first has none never reached the output.
---
 operators.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/operators.go b/operators.go
index d37afdb..63b4b2a 100644
--- a/operators.go
+++ b/operators.go
@@ -188,25 +188,36 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
-		iterator = s.Enumerate()
-		source = m
-	} else {
-		iterator = m.Enumerate()
-		source = s
+	// the output may be one of the operands
+	if s == matrix {
+		s = s.Copy()
 	}
 
-	for iterator.HasNext() {
+	if m == matrix {
+		m = m.Copy()
+	}
+
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			r, c, v := iterator.Next()
-			value := source.At(r, c)
+			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(r, c, value+v)
+				matrix.Set(r, c, value+m.At(r, c))
+			}
+		}
+	}
+
+	// the elements of m where s has none
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) && IsZero(s.At(r, c)) {
+				matrix.Set(r, c, value)
 			}
 		}
 	}
-- 
2.43.0


From 7c947ee6355fc77391f645d36803827263699693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 10/27] fix: Subtract reads the output instead of its second
 operand

It computed s minus the previous output, and only where s has elements:
an output that is not a copy of m, or a position where only m has an
element, got the wrong result (SparseVector.Subtract among them).
---
 operators.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 63b4b2a..9633702 100644
--- a/operators.go
+++ b/operators.go
@@ -313,6 +313,15 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the output may be one of the operands
+	if s == matrix {
+		s = s.Copy()
+	}
+
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -320,9 +329,20 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	// the elements of m where s has none
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) && IsZero(s.At(r, c)) {
+				matrix.Set(r, c, -value)
 			}
 		}
 	}
-- 
2.43.0


From 36ae4d2dfa7ba2e146b7646375fc7c8cd72acbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 11/27] fix: Equal ignores elements only the dense operand has

When one of two matrices was sparse only its stored elements were
compared, so a dense matrix with further nonzero elements was equal.
---
 operators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 9633702..34f5e0c 100644
--- a/operators.go
+++ b/operators.go
@@ -569,9 +569,9 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 	var iterator Enumerate[T]
 	var matrix MatrixLogical[T]
 
-	// Check for a sparse matrix as we want to use its Enumerate operation
-	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// A sparse matrix only enumerates its stored elements, so when just one of the
+	// two is sparse use the Enumerate operation of the other to compare every element
+	if isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From 0c15bb1877e8fa3b78b25dad8b4d797b15d40220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 12/27] fix: only float64 matrices are classified as sparse

The registry is keyed by the name of the registered instance, which
includes its type argument, so IsSparseMatrix was false for the
compressed formats of every other element type and Equal with a dense
matrix was always false.
---
 matrixRegistry.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..44eff43 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,6 +8,7 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -16,16 +17,23 @@ var sparseMatrixRegistry = make(map[string]reflect.Type)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
-		log.Panicf("Already registered Matrix %q.", matrix.Name())
+	name := registryName(matrix)
+	if _, found := sparseMatrixRegistry[name]; found {
+		log.Panicf("Already registered Matrix %q.", name)
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixRegistry[name] = matrix
 
 }
 
+// registryName is the name of the type without its type arguments, every instance of a generic matrix is the same storage format
+func registryName(matrix reflect.Type) string {
+	name, _, _ := strings.Cut(matrix.Name(), "[")
+	return name
+}
+
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	_, found := sparseMatrixRegistry[registryName(t)]
 	return found
 }
-- 
2.43.0


From a9bf7d022479a32db703956df0c8bbf86f9f7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 13/27] fix: Apply in place changes exactly the masked elements

The mask test was inverted when the output is the input; with no mask
nothing was applied.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 34f5e0c..fa8bba7 100644
--- a/operators.go
+++ b/operators.go
@@ -371,7 +371,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
-- 
2.43.0


From 3bc637a72a29f68e16fdad6c5c350774007eb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 14/27] fix: Apply writes its results transposed

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index fa8bba7..6526323 100644
--- a/operators.go
+++ b/operators.go
@@ -390,7 +390,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From 701ee44ba863d3916ad0178c88d284ee8ac0aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 15/27] fix: Transpose reads the mask at the source's position

The mask has the shape of the output; it was read at (r, c) although the
position written is (c, r).
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 6526323..bc2bcac 100644
--- a/operators.go
+++ b/operators.go
@@ -465,7 +465,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From f94c1cc97195cdc52e56e52a73b0bed4dd127ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 16/27] fix: element-wise multiplication does not multiply

A product was only stored where the two values were equal (and then not
as their product); with the output as an operand, positions where only
the output has an element were kept instead of becoming zero.
---
 operators.go | 50 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/operators.go b/operators.go
index bc2bcac..1e974a3 100644
--- a/operators.go
+++ b/operators.go
@@ -96,36 +96,32 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	target := func(r, c int, value T) {
-		v := source.At(r, c)
-		if value == v {
-			if !mask.Element(r, c) {
-				matrix.Set(r, c, value)
-			}
+	// when the matrix is the same object of s or m we map it to self update
+	if m == matrix || s == matrix {
+		source = s
+		if s == matrix {
+			source = m
 		}
-	}
 
-	// when the matrix is the same object of s or m we use the setSource func to self update
-	setSource := func(r, c int, value T) {
-		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+		for iterator := matrix.Map(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				iterator.Map(func(r, c int, value T) T {
+					if mask.Element(r, c) {
+						return value
+					}
+
+					return value * source.At(r, c)
+				})
+			}
 		}
+
+		return
 	}
 
-	if m == matrix {
-		target = setSource
-		iterator = s.Enumerate()
-		source = m
-	} else if s == matrix {
-		target = setSource
-		iterator = m.Enumerate()
-		source = s
-	} else if IsSparseMatrix[T](s) {
+	if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
 	} else {
@@ -139,7 +135,9 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 			return
 		default:
 			r, c, value := iterator.Next()
-			target(r, c, value)
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, value*source.At(r, c))
+			}
 		}
 	}
 }
-- 
2.43.0


From c723d5575df92f5152b6d3a68bffc0310d040835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 17/27] fix: element-wise matrix operations check the shapes
 for a product

Equally shaped rectangular operands were rejected and differently shaped
ones with a matching inner dimension accepted.
---
 operators.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index 1e974a3..4a258aa 100644
--- a/operators.go
+++ b/operators.go
@@ -146,8 +146,8 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() || m.Columns() != s.Columns() {
+		log.Panicf("Can not multiply matrices found shape mismatch %+vx%+v, %+vx%+v", s.Rows(), s.Columns(), m.Rows(), m.Columns())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -271,8 +271,8 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() || m.Columns() != s.Columns() {
+		log.Panicf("Can not add matrices found shape mismatch %+vx%+v, %+vx%+v", s.Rows(), s.Columns(), m.Rows(), m.Columns())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From a7fc9fe65e8fe20311df4cdbc0825034e2b3d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 18/27] fix: a vector's Multiply returns a result of the wrong
 shape

The product has the rows of the vector and the columns of the argument.
---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 98642ad..25c33a6 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -226,7 +226,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index ebdbef6..956559e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -239,7 +239,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 4555cf14fd7725265be7a76beca2a5281a63adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 19/27] fix: a cancelled or rejected reduction leaves
 goroutines behind

On cancellation the reducer was never told that the stream is complete,
so the call hung; a mask of the wrong shape was only rejected after the
reducer had been started, which then never ended.
---
 operators.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/operators.go b/operators.go
index 4a258aa..097e9b6 100644
--- a/operators.go
+++ b/operators.go
@@ -652,13 +652,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -671,10 +664,18 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
+				done <- struct{}{}
 				return
 			default:
 				r, c, value := iterator.Next()
-- 
2.43.0


From d5074016a05dda06a294054bd4718e908194371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 20/27] fix: MonoID.Reduce adds and loses values

A closed stream was folded as an endless run of zero values, and values
still buffered when done became ready could be left out.
---
 binaryop/monoID.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/binaryop/monoID.go b/binaryop/monoID.go
index 1eb1103..c1aef5c 100644
--- a/binaryop/monoID.go
+++ b/binaryop/monoID.go
@@ -37,10 +37,15 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 		result := s.unit
 		for {
 			select {
-			case value := <-slice:
+			case value, ok := <-slice:
+				if !ok {
+					// closed, only done is left to wait for
+					slice = nil
+					continue
+				}
 				result = s.BinaryOp.Apply(result, value)
 			case <-done:
-				out <- result
+				out <- s.drain(result, slice)
 				close(out)
 				return
 			}
@@ -48,3 +53,18 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 	}()
 	return out
 }
+
+// drain folds the values sent before done which are still buffered
+func (s *monoID[T]) drain(result T, slice <-chan T) T {
+	for {
+		select {
+		case value, ok := <-slice:
+			if !ok {
+				return result
+			}
+			result = s.BinaryOp.Apply(result, value)
+		default:
+			return result
+		}
+	}
+}
-- 
2.43.0


From e945228bd01173c0d2f954954d20000769537a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 21/27] fix: the order of rune matrices depends on their format

String relied on the enumeration order, which is by column for CSC
matrices and leaves out zeros for the compressed formats, so Compare,
Less and Greater were not lexicographic for them.
---
 operators.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 097e9b6..56313aa 100644
--- a/operators.go
+++ b/operators.go
@@ -518,15 +518,16 @@ func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
 func String(ctx context.Context, s MatrixLogical[rune]) string {
 	var b strings.Builder
 	b.Grow(s.Size())
-	enumator := s.Enumerate()
 
-	for enumator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return b.String()
-		default:
-			_, _, r := enumator.Next()
-			b.WriteRune(r)
+	// by position, as enumerating neither guarantees an order nor includes the zeros of a sparse matrix
+	for r := 0; r < s.Rows(); r++ {
+		for c := 0; c < s.Columns(); c++ {
+			select {
+			case <-ctx.Done():
+				return b.String()
+			default:
+				b.WriteRune(s.At(r, c))
+			}
 		}
 	}
 
-- 
2.43.0


From 684603ff2609a8809d19a740045ee0c72251a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 22/27] fix: sorting loses the zeros of sparse rows and columns

The swap only wrote the stored elements of each row, so where the other
row had none the old value stayed and rows were mixed.
---
 sort/bubble.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..25d9212 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,9 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(j, c, vi.AtVec(c))
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +33,9 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
-				}
-
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for r := 0; r < vi.Length(); r++ {
+					result.Set(r, j, vi.AtVec(r))
+					result.Set(r, i, vj.AtVec(r))
 				}
 			}
 		}
-- 
2.43.0


From 906f8a706105e823db2560046b137b1f84c44a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 23/27] fix: Strassen multiplication of odd or rectangular
 matrices is wrong

Above the crossover point the last row and column of an odd size were
dropped and rectangular operands read out of range or truncated; a
crossover point below one never ended.
---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..66268e9 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of an even size divide into four equal sub-matrices
+	if n <= crossover || n < 2 || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From 3097bb51f1330958b8b1accfa2197f8951f9e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 24/27] fix: MutexMatrix.Clear only holds the read lock

---
 mutexMatrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..d3d486f 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -166,8 +166,8 @@ func (s *MutexMatrix[T]) Values() int {
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
-- 
2.43.0


From e2bdfea6ad05370c25cfcb35a820524b6391e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 25/27] fix: MutexMatrix.Values and Size read without the lock

---
 mutexMatrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index d3d486f..b056e25 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -156,11 +156,17 @@ func (s *MutexMatrix[T]) NotEqual(m MatrixLogical[T]) bool {
 
 // Size of the matrix
 func (s *MutexMatrix[T]) Size() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Size()
 }
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
-- 
2.43.0


From 940a5e40a99e2329da04e1a374b5861778255cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 26/27] fix: MutexMatrix.Enumerate reads the matrix without the
 lock

The iterator walked the live matrix while writers changed it; it now
walks a copy taken under the lock.
---
 mutexMatrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index b056e25..b84765f 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -178,9 +178,12 @@ func (s *MutexMatrix[T]) Clear() {
 	s.matrix.Clear()
 }
 
-// Enumerate iterates through all non-zero elements, order is not guaranteed
+// Enumerate iterates through all non-zero elements at the time of the call, order is not guaranteed
 func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
-	return s.matrix.Enumerate()
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.matrix.Copy().Enumerate()
 }
 
 // Map replace each element with the result of applying a function to its value
-- 
2.43.0


From 175d96adedff6959744a88a7b565eefc6d70954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 27/27] fix: MutexMatrix.Map changes the matrix without the
 lock

The iterator wrote to the live matrix unlocked, losing updates of others
and corrupting it; it now walks the positions of a snapshot and replaces
each element under the lock.
---
 mutexMatrix.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index b84765f..7edcf2a 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -187,8 +187,23 @@ func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
 }
 
 // Map replace each element with the result of applying a function to its value
+// each element is locked while it is replaced
 func (s *MutexMatrix[T]) Map() Map[T] {
-	return s.matrix.Map()
+	return &mutexMatrixMap[T]{Enumerate: s.Enumerate(), matrix: s}
+}
+
+type mutexMatrixMap[T constraints.Number] struct {
+	Enumerate[T]
+	matrix *MutexMatrix[T]
+}
+
+// Map move the iterator and uses a higher order function to changes the elements current value
+func (s *mutexMatrixMap[T]) Map(f func(int, int, T) T) {
+	r, c, _ := s.Next()
+
+	s.matrix.Update(r, c, func(value T) T {
+		return f(r, c, value)
+	})
 }
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
-- 
2.43.0

