From 0741bbec09f2a7a3be952f3fb81f432e3c521858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 01/28] fix: sparse vector looked up indices beyond the number
 of stored entries as absent

---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From 8b46442123e88ff42ab189ae48ca122439672295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 02/28] fix: sparse formats were only recognised as sparse for
 float64 elements

---
 matrixRegistry.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..83da63e 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,6 +8,7 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -16,16 +17,22 @@ var sparseMatrixRegistry = make(map[string]reflect.Type)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
+	if _, found := sparseMatrixRegistry[registryName(matrix)]; found {
 		log.Panicf("Already registered Matrix %q.", matrix.Name())
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixRegistry[registryName(matrix)] = matrix
 
 }
 
+// registryName is the name of the type without its type arguments, a format is sparse for every element type
+func registryName(t reflect.Type) string {
+	name, _, _ := strings.Cut(t.Name(), "[")
+	return name
+}
+
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
 	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	_, found := sparseMatrixRegistry[registryName(t)]
 	return found
 }
-- 
2.43.0


From 851de888eda13c98107cdc57842727e665f5d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 03/28] fix: mapping an element of a sparse format to zero
 broke the running iteration

---
 cscMatrix.go    | 4 ++++
 csrMatrix.go    | 4 ++++
 sparseVector.go | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..67d371f 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,10 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..3dd8561 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,10 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
+		s.last--
+		s.size--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..cca1b6e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -362,6 +362,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From 52a60997f5b398b7781046b0dbb71828256f519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 04/28] fix: subtract read the subtrahend from the output and
 ignored elements missing from a sparse minuend

---
 operators.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..bb27d2f 100644
--- a/operators.go
+++ b/operators.go
@@ -302,16 +302,36 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the operands are still read while the output is written
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
 			r, c, value := iterator.Next()
+			v := m.At(r, c)
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-v)
+			}
+		}
+	}
+
+	// elements only found in m
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, v := iterator.Next()
+			if s.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, Default[T]()-v)
 			}
 		}
 	}
-- 
2.43.0


From 31925f607c6a65887b0c9ffc8de78e628bdefdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 05/28] fix: add ignored elements missing from a sparse first
 operand

---
 operators.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/operators.go b/operators.go
index bb27d2f..81e073d 100644
--- a/operators.go
+++ b/operators.go
@@ -188,28 +188,39 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
-		iterator = s.Enumerate()
-		source = m
-	} else {
-		iterator = m.Enumerate()
-		source = s
+	// the operands are still read while the output is written
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
 	}
 
-	for iterator.HasNext() {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
 			r, c, v := iterator.Next()
-			value := source.At(r, c)
+			value := m.At(r, c)
 			if !mask.Element(r, c) {
 				matrix.Set(r, c, value+v)
 			}
 		}
 	}
+
+	// elements only found in m
+	for iterator := m.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			return
+		default:
+			r, c, v := iterator.Next()
+			if s.At(r, c) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, v)
+			}
+		}
+	}
 }
 
 func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-- 
2.43.0


From 7cf7dc887473b472a067da21da7bd59961267772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 06/28] fix: equal only compared the elements stored in the
 sparse one of two matrices

---
 operators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 81e073d..097189b 100644
--- a/operators.go
+++ b/operators.go
@@ -553,9 +553,9 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 	var iterator Enumerate[T]
 	var matrix MatrixLogical[T]
 
-	// Check for a sparse matrix as we want to use its Enumerate operation
-	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// A dense matrix enumerates every element so its the one to enumerate when the other is sparse,
+	// two sparse matrices with the same number of elements only need the elements of one compared
+	if isSparseMatrixM {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From a2b1688c73734d3ad1307706e5a7c41dd2003f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 07/28] fix: apply wrote its results transposed and inverted
 the mask when applied in place

---
 operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index 097189b..f578f77 100644
--- a/operators.go
+++ b/operators.go
@@ -371,7 +371,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
@@ -390,7 +390,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From 56161ac4e46525624475109b04e40d7b03ff6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 08/28] fix: transpose looked up its mask at the source instead
 of the output coordinates

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index f578f77..36dc498 100644
--- a/operators.go
+++ b/operators.go
@@ -449,7 +449,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From 1aeea22a48771e28ad13bf7abe6a836587265f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 09/28] fix: negative ignored its input and negated the
 previous contents of the output

---
 operators.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 36dc498..08d7e2b 100644
--- a/operators.go
+++ b/operators.go
@@ -410,18 +410,15 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := matrix.Map(); iterator.HasNext(); {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			iterator.Map(func(r, c int, value T) T {
-				if !mask.Element(r, c) {
-					return -value
-				}
-
-				return value
-			})
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
+			}
 		}
 	}
 }
-- 
2.43.0


From 8d827f95ce7711b37f739e6d5b7b10dc8aea9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 10/28] fix: scalar multiplication never returned once its
 context was cancelled

---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 08d7e2b..5ceed4a 100644
--- a/operators.go
+++ b/operators.go
@@ -587,7 +587,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From df18da4e828d2a9cabbd78d83e11a0e373bb0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 11/28] fix: reduction never returned once cancelled and left a
 goroutine behind on a mask mismatch

---
 operators.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/operators.go b/operators.go
index 5ceed4a..cb0e9ee 100644
--- a/operators.go
+++ b/operators.go
@@ -635,13 +635,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -654,10 +647,18 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
+				done <- struct{}{}
 				return
 			default:
 				r, c, value := iterator.Next()
-- 
2.43.0


From 1108876ded994c79cdba9bcf42b115a71140e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 12/28] fix: element-wise matrix operations required the
 operands to be conformable for a product

---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index cb0e9ee..54dff8c 100644
--- a/operators.go
+++ b/operators.go
@@ -148,8 +148,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -273,8 +277,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From 1baeddd51ee0d425455fca94dbe1c5293b86d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 13/28] fix: vector multiplication allocated its result with
 the operands' inner dimensions

---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index d68a835..00162cf 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -223,7 +223,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index cca1b6e..ae4c2df 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -236,7 +236,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 4fe6da9041b1dc2714f13bf49e558700b98c8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 14/28] fix: shrinking a dense vector kept as many elements as
 it should have cut

---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 00162cf..0be80e9 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 85dd97e03f9db11f128f8f8f224d8c7bf98b4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 15/28] fix: vectors accepted any column index when read

---
 denseVector.go  | 8 ++++++++
 sparseVector.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/denseVector.go b/denseVector.go
index 0be80e9..0796bf4 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -129,6 +129,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -350,5 +354,9 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index ae4c2df..d565f24 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -369,5 +369,9 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r) > Default[T]()
 }
-- 
2.43.0


From fe9f0896843fe0f6e505a60e0a6b546c9d77ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 16/28] fix: negative mask elements were treated as false

---
 cscMatrix.go    | 2 +-
 csrMatrix.go    | 2 +-
 denseMatrix.go  | 2 +-
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 67d371f..56a9c4a 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -417,7 +417,7 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/csrMatrix.go b/csrMatrix.go
index 3dd8561..5f3b4ad 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -407,7 +407,7 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
 	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
+		b = v != Default[T]()
 		return v
 	})
 
diff --git a/denseMatrix.go b/denseMatrix.go
index 220637f..46f8847 100644
--- a/denseMatrix.go
+++ b/denseMatrix.go
@@ -362,5 +362,5 @@ func (s *DenseMatrixNumber[T]) Element(r, c int) bool {
 }
 
 func (s *DenseMatrixNumber[T]) element(r, c int) bool {
-	return s.At(r, c) > Default[T]()
+	return s.At(r, c) != Default[T]()
 }
diff --git a/denseVector.go b/denseVector.go
index 0796bf4..25c33a6 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -358,5 +358,5 @@ func (s *DenseVectorNumber[T]) Element(r, c int) bool {
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index d565f24..d5f3ef9 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -373,5 +373,5 @@ func (s *SparseVector[T]) Element(r, c int) bool {
 		log.Panicf("Column '%+v' is invalid", c)
 	}
 
-	return s.AtVec(r) > Default[T]()
+	return s.AtVec(r) != Default[T]()
 }
-- 
2.43.0


From 42e11d3df85370693fe776069ffa6108c43dc950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 17/28] fix: reading an element of a sparse format wrote to its
 storage

---
 cscMatrix.go    | 24 ++++++++++++++----------
 csrMatrix.go    | 24 ++++++++++++++----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 56a9c4a..8d4c1d1 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -416,10 +425,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index 5f3b4ad..ad738de 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -406,10 +415,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v != Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) != Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index d5f3ef9..956559e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 1543580c5b51cf980a432bde60ebe77f7fcfa68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 18/28] fix: mutex matrix cleared, counted, enumerated and
 mapped without holding its lock

---
 mutexMatrix.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..a2e0563 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,25 +161,50 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
 
 // Enumerate iterates through all non-zero elements, order is not guaranteed
 func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {
-	return s.matrix.Enumerate()
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.matrix.Copy().Enumerate()
 }
 
-// Map replace each element with the result of applying a function to its value
+// Map replace each element with the result of applying a function to its value,
+// the elements are those found when called and each one is updated atomically
 func (s *MutexMatrix[T]) Map() Map[T] {
-	return s.matrix.Map()
+	return &mutexMatrixMap[T]{matrix: s, elements: s.Enumerate()}
+}
+
+type mutexMatrixMap[T constraints.Number] struct {
+	matrix   *MutexMatrix[T]
+	elements Enumerate[T]
+}
+
+// HasNext checks the iterator has any more values
+func (s *mutexMatrixMap[T]) HasNext() bool {
+	return s.elements.HasNext()
+}
+
+// Map move the iterator and uses a higher order function to changes the elements current value
+func (s *mutexMatrixMap[T]) Map(f func(int, int, T) T) {
+	r, c, _ := s.elements.Next()
+	s.matrix.Update(r, c, func(v T) T {
+		return f(r, c, v)
+	})
 }
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
-- 
2.43.0


From 526db6775dadc6b8492e68742831c46683ba0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 19/28] fix: strassen dropped rows and columns of odd sized and
 non-square matrices

---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..418dd8c 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of an even size can be divided in 4 equal sub-matrices
+	if n <= crossover || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From 265f76fe516dc8ed4b919f07422a0a3a7d55e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 20/28] fix: comparing and sorting rune matrices of a sparse
 format ignored the position of their elements

---
 operators.go   | 17 +++++++++--------
 sort/bubble.go | 24 ++++++++----------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/operators.go b/operators.go
index 54dff8c..85096e1 100644
--- a/operators.go
+++ b/operators.go
@@ -509,15 +509,16 @@ func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
 func String(ctx context.Context, s MatrixLogical[rune]) string {
 	var b strings.Builder
 	b.Grow(s.Size())
-	enumator := s.Enumerate()
 
-	for enumator.HasNext() {
-		select {
-		case <-ctx.Done():
-			return b.String()
-		default:
-			_, _, r := enumator.Next()
-			b.WriteRune(r)
+	// every element is written, in the same order whatever order they are stored in
+	for r := 0; r < s.Rows(); r++ {
+		for c := 0; c < s.Columns(); c++ {
+			select {
+			case <-ctx.Done():
+				return b.String()
+			default:
+				b.WriteRune(s.At(r, c))
+			}
 		}
 	}
 
diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..76c8675 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -14,16 +14,12 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(j, c, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(j, c, vi.AtVec(c))
 				}
 
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(i, c, v)
+				for c := 0; c < vj.Length(); c++ {
+					result.Set(i, c, vj.AtVec(c))
 				}
 			}
 		}
@@ -40,16 +36,12 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-				enumerator := vi.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, j, v)
+				for c := 0; c < vi.Length(); c++ {
+					result.Set(c, j, vi.AtVec(c))
 				}
 
-				enumerator = vj.Enumerate()
-				for enumerator.HasNext() {
-					c, _, v := enumerator.Next()
-					result.Set(c, i, v)
+				for c := 0; c < vj.Length(); c++ {
+					result.Set(c, i, vj.AtVec(c))
 				}
 			}
 		}
-- 
2.43.0


From e047067cca0ed0ac4b77c9d2c675118dfc170d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 21/28] fix: multiply, element-wise add and transpose overwrote
 the operand passed as output while reading it

---
 operators.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/operators.go b/operators.go
index 85096e1..0568459 100644
--- a/operators.go
+++ b/operators.go
@@ -33,6 +33,11 @@ func multiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the columns are still read while the output is written
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for r := 0; r < s.Rows(); r++ {
 		rows := s.RowsAt(r)
 
@@ -240,6 +245,11 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the second operand is still read while the output is written
+	if m == matrix && s != matrix {
+		m = m.Copy()
+	}
+
 	if s != matrix {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
@@ -447,6 +457,12 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// the operand is still read while the output is written
+	inPlace := s == matrix
+	if inPlace {
+		s = s.CopyLogical()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -457,6 +473,11 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
+
+			// nothing takes the place of an element whose mirror is not stored
+			if inPlace && s.At(c, r) == Default[T]() && !mask.Element(r, c) {
+				matrix.Set(r, c, Default[T]())
+			}
 		}
 	}
 }
-- 
2.43.0


From c31ec81b6299fcec31c766f22a916a0c7fdbda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 22/28] fix: row reduction left leading elements that were not
 exactly one

---
 math/reduced/reduced.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/reduced/reduced.go b/math/reduced/reduced.go
index c5522bf..5cb66ba 100644
--- a/math/reduced/reduced.go
+++ b/math/reduced/reduced.go
@@ -47,12 +47,12 @@ func Reduced[T constraints.Number](s graphblas.Matrix[T]) graphblas.Matrix[T] {
 			}
 		}
 
-		f := 1 / m.At(r, lead)
+		f := m.At(r, lead)
 
 		vector := m.RowsAtToArray(r)
 		for c := 0; c < len(vector); c++ {
 			value := vector[c]
-			value *= f
+			value /= f
 			m.Set(r, c, value)
 		}
 
-- 
2.43.0


From 5748c702003d515fc333e59541834661747ff6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 23/28] fix: an already cancelled product with an empty inner
 dimension still wrote its output

---
 operators.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operators.go b/operators.go
index 0568459..ee12280 100644
--- a/operators.go
+++ b/operators.go
@@ -44,6 +44,11 @@ func multiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		for c := 0; c < m.Columns(); c++ {
 			column := m.ColumnsAt(c)
 
+			// without anything to sum the context is not consulted below
+			if ctx.Err() != nil {
+				return
+			}
+
 			sum := Default[T]()
 			for l := 0; l < rows.Length(); l++ {
 				select {
-- 
2.43.0


From a850b6dabd26cddc07b4b095dcde8a5a7c3c9043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 24/28] fix: a cancelled element-wise addition left values the
 completed one would not give

---
 operators.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index ee12280..3c33c06 100644
--- a/operators.go
+++ b/operators.go
@@ -262,7 +262,8 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 				return
 			default:
 				r, c, value := iterator.Next()
-				if value != Default[T]() {
+				// an element of m takes precedence, also when cancelled before it is reached
+				if value != Default[T]() && m.At(r, c) == Default[T]() {
 					if !mask.Element(r, c) {
 						matrix.Set(r, c, value)
 					}
-- 
2.43.0


From 57e3b67310d76c9a5fe7ac5ae2c7f585279de99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 25/28] fix: folding a closed stream added zero values nobody
 had sent

---
 binaryop/monoID.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binaryop/monoID.go b/binaryop/monoID.go
index 1eb1103..1815636 100644
--- a/binaryop/monoID.go
+++ b/binaryop/monoID.go
@@ -37,7 +37,11 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 		result := s.unit
 		for {
 			select {
-			case value := <-slice:
+			case value, ok := <-slice:
+				if !ok {
+					slice = nil
+					continue
+				}
 				result = s.BinaryOp.Apply(result, value)
 			case <-done:
 				out <- result
-- 
2.43.0


From bc5b9e709512d8319b65a1e8c3aecc0e18fa436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 26/28] fix: a fold lost the values still buffered when
 completion was signalled

---
 binaryop/monoID.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binaryop/monoID.go b/binaryop/monoID.go
index 1815636..1450b7a 100644
--- a/binaryop/monoID.go
+++ b/binaryop/monoID.go
@@ -44,6 +44,10 @@ func (s *monoID[T]) Reduce(done <-chan struct{}, slice <-chan T) <-chan T {
 				}
 				result = s.BinaryOp.Apply(result, value)
 			case <-done:
+				// fold what was sent before but still waits in the channel's buffer
+				for len(slice) > 0 {
+					result = s.BinaryOp.Apply(result, <-slice)
+				}
 				out <- result
 				close(out)
 				return
-- 
2.43.0


From 80abe1fb93748f2494ef37376d8a322670ebf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 27/28] fix: element-wise multiplication of a sparse matrix
 holding NaN with itself, into itself, enumerated what it removed

---
 operators.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operators.go b/operators.go
index 3c33c06..99aa2ec 100644
--- a/operators.go
+++ b/operators.go
@@ -128,6 +128,10 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 	}
 
 	if m == matrix {
+		// elements that differ are removed from m, do not enumerate it as well
+		if s == matrix {
+			s = s.Copy()
+		}
 		target = setSource
 		iterator = s.Enumerate()
 		source = m
-- 
2.43.0


From c07c7d0ce7ec15744f40f04e0b6a3f20e5725726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:22 +0000
Subject: [PATCH 28/28] fix: IsSparseMatrix takes a matrix of the user's own
 that is not a pointer

---
 matrixRegistry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 83da63e..61673a5 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -32,7 +32,10 @@ func registryName(t reflect.Type) string {
 
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
-	t := reflect.TypeOf(s).Elem()
+	t := reflect.TypeOf(s)
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
 	_, found := sparseMatrixRegistry[registryName(t)]
 	return found
 }
-- 
2.43.0

