From a57bbbd73e95a190ecf7d3752159f13835d0c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 01/52] fix: swap of dense and sparse matrices exchanges the
 element count too

---
 include/BlasBooster/Core/DenseMatrix.h  | 1 +
 include/BlasBooster/Core/SparseMatrix.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..0288b75 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -291,6 +291,7 @@ public: // member functions
         swap(a.ownMemory_,b.ownMemory_);
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
+        swap(a.full_size_,b.full_size_);
         //swap(a.storage,b.storage);
     }
 
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..13a3b19 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -130,6 +130,7 @@ public:
         swap(a.offset_,b.offset_);
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
+        swap(a.full_size_,b.full_size_);
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From 337335d0ba19d967b2978fee3317d93f2c64c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 02/52] fix: copy of a storage on external memory owns its new
 memory

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..f0302d8 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From a92854e88e80eb3652efeb5bf72d1b4d222f6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/52] fix: assignment to a fixed size storage on external
 memory does not take ownership

---
 include/BlasBooster/Core/Storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f0302d8..ef0a63b 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
-- 
2.43.0


From 9c5ede5550302f78ecee65b600c28b4a979c4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 04/52] fix: row-major sparse matrices get one offset per row

---
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 13a3b19..256a4ff 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -168,7 +168,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -267,7 +267,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From a18496a17f10a2cfe01ad2364b2ae9a97d677bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 05/52] fix: failed allocation in resize or assignment leaves
 an empty storage instead of a dangling pointer

---
 include/BlasBooster/Core/Storage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ef0a63b..729f65f 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -365,6 +365,8 @@ public:
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
         if (data_) deallocate<T>(data_);
+        data_ = nullptr;
+        size_ = 0;
         data_ = allocate<T>(size);
         size_ = size;
     }
@@ -374,6 +376,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
             if (ownMemory_) deallocate<T>(data_);
+            data_ = nullptr;
+            size_ = 0;
             if (rhs.ownMemory_) {
                 data_ = allocate<T>(rhs.size_);
                 std::copy(rhs.begin(),rhs.end(),begin());
-- 
2.43.0


From 3e4e850fc225222a4fe1120aa00312dc14cc29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 06/52] fix: fixed size storage releases its memory when the
 constructor rejects the number of values

---
 include/BlasBooster/Core/Storage.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 729f65f..e55be56 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -145,7 +145,10 @@ public:
      : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Initializer list constructor is called.");
-        if ( values.size() != size_ ) throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
+        if ( values.size() != size_ ) {
+            delete [] data_;
+            throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
+        }
         size_t i(0);
         for ( auto val : values ) data_[i++] = val;
     }
@@ -173,7 +176,10 @@ public:
      : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Conversion constructor is called.");
-        if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
+        if ( rhs.size_ != size_ ) {
+            delete [] data_;
+            throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
+        }
         std::copy(rhs.begin(),rhs.end(),begin());
     }
 
-- 
2.43.0


From ed936c18e5c06dea8970f5e522c67eef26ec0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/52] fix: dense to sparse conversion walks along the lines
 of the sparse matrix for every orientation

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 256a4ff..c819295 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -195,7 +195,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From 3b4546e5ab44a8711813c30d9dfd3d76f155aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 08/52] fix: resizing a zero matrix updates the element count

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..d104c2f 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    dimension::resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 25cb96e220023b165029b24bd00933bf7fa85030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 09/52] fix: transposing a sparse matrix without elements gives
 one without elements

---
 include/BlasBooster/Core/SparseStorage.h | 6 ++++++
 include/BlasBooster/Core/Storage.h       | 5 +++++
 include/BlasBooster/Core/Transposition.h | 1 +
 3 files changed, 12 insertions(+)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..1db7e8e 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,12 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Drop the values behind the first ones
+    void shrink(IndexType nbOfValues) {
+        value_.shrink(nbOfValues);
+        key_.shrink(nbOfValues);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index e55be56..80c6647 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -377,6 +377,11 @@ public:
         size_ = size;
     }
 
+    /// Drop the values behind the first ones, the allocated memory is kept
+    void shrink(size_t size) {
+        if (size < size_) size_ = size;
+    }
+
     /// Copy assignment
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..e946ddb 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -35,6 +35,7 @@ template <class T, class P>
 Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
 {
     Matrix<Sparse,T,P> transposedMatrix(matrix.getNbColumns(), matrix.getNbRows(), matrix.nnz());
+    transposedMatrix.shrink(matrix.nnz());
 
     typedef typename Matrix<Sparse,T,P>::IndexType IndexType;
     typedef typename Matrix<Sparse,T,P>::iterator iterator;
-- 
2.43.0


From a7631aa859f547c56c7ff4a470b4e21bac3519ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 10/52] fix: transposing a sparse matrix without rows does not
 run past its offsets

---
 include/BlasBooster/Core/Transposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index e946ddb..61856d3 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -60,7 +60,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 1),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-- 
2.43.0


From 8a917000378148e1e01bba6a202d79eed2f806b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 11/52] fix: sparse sums and products hold only their stored
 elements

---
 include/BlasBooster/Core/BinaryFunctors.h        | 2 ++
 include/BlasBooster/Core/Multiplication_Native.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..1383fdb 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..2435c1e 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,7 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+        C.shrink(offset);
     }
 };
 
-- 
2.43.0


From b34b50e10215bc38510aa64283b4dc963dd2801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 12/52] fix: subtracting a dense matrix from a sparse one has
 the right sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 1383fdb..16fcb3d 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -289,8 +289,9 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        // Subtraction is not commutative, A has to be the first operand.
+        C = Matrix<Dense,T3,P3>(A);
+        BinaryAssignmentOperationFunctor<Operation,Dense,T3,P3,Dense,T2,P2>()(C,B);
     }
 };
 
-- 
2.43.0


From f908e912e0ebb128dc9112965bb09906298c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 13/52] fix: subtracting a matrix from a zero matrix negates it

---
 include/BlasBooster/Core/BinaryFunctors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 16fcb3d..fe9a061 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -312,6 +312,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (auto& value : C) UnaryOperation<Operation>()(value, T(value));
     }
 };
 
-- 
2.43.0


From c01e58c359b4af6cdc79fc542eafbe929aae342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 14/52] fix: adding a row-major sparse matrix to a dense one
 keeps rows and columns apart

---
 include/BlasBooster/Core/BinaryFunctors.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index fe9a061..2c294e3 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -269,7 +269,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -366,15 +366,18 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
         assert(A.getNbRows() == B.getNbRows());
         assert(A.getNbColumns() == B.getNbColumns());
 
-        size_t col(0);
+        size_t line(0);
         for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetCur(B.beginOffset()),
-            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++col)
+            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++line)
         {
             typename Matrix<Sparse,T2,P2>::const_iterator iterValueCur(B.begin() + *iterOffsetCur);
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                if (std::is_same<typename P2::orientation, ColumnMajor>::value)
+                    OperationAssignment<Operation>()(A(*iterKeyCur,line),*iterValueCur);
+                else
+                    OperationAssignment<Operation>()(A(line,*iterKeyCur),*iterValueCur);
             }
         }
     }
-- 
2.43.0


From 61736e608924b528f7734318c00fb9410c38e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 15/52] fix: difference of two split matrices subtracts both
 summands

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 2c294e3..64573cf 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -561,9 +561,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From be6c066cf2b1b4c933659cc265e847ff7812a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 16/52] fix: products of row-major matrices convert the
 operands to column-major first

---
 include/BlasBooster/Core/MatrixMultExp.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index 33cca37..3e2b09c 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -25,6 +25,19 @@ struct MatrixMultExp
     static_assert(wrong_t<TypeA>::value, "Primary template must not be instantiated.");
 };
 
+/// The multiplication functors expect column-major operands, a row-major one is converted before.
+template <class M, class T, class Index>
+inline Matrix<M, T, Parameter<Index, ColumnMajor>> const& toColumnMajor(Matrix<M, T, Parameter<Index, ColumnMajor>> const& A)
+{
+    return A;
+}
+
+template <class M, class T, class Index>
+inline Matrix<M, T, Parameter<Index, ColumnMajor>> toColumnMajor(Matrix<M, T, Parameter<Index, RowMajor>> const& A)
+{
+    return Matrix<M, T, Parameter<Index, ColumnMajor>>(A);
+}
+
 /// Expression template for multiplication Matrix * Matrix
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 class MatrixMultExp<Matrix<M1,T1,P1>, Matrix<M2,T2,P2>>
@@ -38,8 +51,9 @@ public:
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
     {
-        Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())> C;
-        MultiplicationFunctor<M1,T1,P1,M2,T2,P2, decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2()), Interface>()(A,B,C);
+        typedef decltype(P1() * P2()) P3;
+        Matrix<decltype(M1() * M2()), decltype(T1() * T2()), P3> C;
+        MultiplicationFunctor<M1,T1,P3,M2,T2,P3, decltype(M1() * M2()), decltype(T1() * T2()), P3, Interface>()(toColumnMajor(A),toColumnMajor(B),C);
         return C;
     }
 
-- 
2.43.0


From d999faf729a0841df6c406c41eedceab8559c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 17/52] fix: complex dot products of OpenBLAS return their
 result

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp          | 16 ++++++++++++----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre      | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..19ab50d 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -3,6 +3,14 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// How the Fortran functions return a complex value depends on the compiler, these do not.
+extern "C" {
+    void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -938,7 +946,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -946,7 +954,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -954,7 +962,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -962,7 +970,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..5b459bb 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -3,6 +3,14 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// How the Fortran functions return a complex value depends on the compiler, these do not.
+extern "C" {
+    void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+    void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -28,7 +36,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -36,7 +44,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -44,7 +52,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -52,7 +60,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
-- 
2.43.0


From 37359c92eb42488d0b48cf61a4d86e091aa9b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 18/52] fix: AbsoluteValueRangeChecker rejects NaN bounds

---
 .../BlasBooster/Core/AbsoluteValueRangeChecker.h   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..cc0d03e 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -54,7 +54,7 @@ public:
     AbsoluteValueRangeChecker(ThresholdType threshold = 0.0)
      : threshold_(threshold)
     {
-        if (threshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: threshold < 0.0");
+        if (!(threshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: threshold < 0.0");
     }
 
     template <class ValueType>
@@ -95,8 +95,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold >= upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold >= upperThreshold");
     }
 
@@ -141,8 +141,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold > upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold > upperThreshold");
     }
 
@@ -187,8 +187,8 @@ public:
     AbsoluteValueRangeChecker(ThresholdType lowerThreshold, ThresholdType upperThreshold)
      : lowerThreshold_(lowerThreshold), upperThreshold_(upperThreshold)
     {
-        if (lowerThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
-        if (upperThreshold < 0.0) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
+        if (!(lowerThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold < 0.0");
+        if (!(upperThreshold >= 0.0)) throw CoreException("AbsoluteValueRangeChecker: upperThreshold < 0.0");
         if (lowerThreshold >= upperThreshold) throw CoreException("AbsoluteValueRangeChecker: lowerThreshold >= upperThreshold");
     }
 
-- 
2.43.0


From 88af1d8ed2fb455bef6a792ea5c046498e2e9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 19/52] fix: occupation cache keys of different checker types
 are never confused

---
 include/BlasBooster/Core/AbsoluteValueRangeChecker.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index cc0d03e..6fa584b 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -4,6 +4,8 @@
 #include "BlasBooster/Core/CoreException.h"
 #include <cmath>
 #include <memory>
+#include <tuple>
+#include <typeinfo>
 
 namespace BlasBooster {
 
@@ -26,6 +28,10 @@ struct ValueCheckerLess
     bool operator () (std::shared_ptr<ValueCheckerBase> const& v1, std::shared_ptr<ValueCheckerBase> const& v2) const
     {
         assert(v1 and v2);
+        // operator < compares the bounds and requires that both have the same type
+        auto const& type1 = typeid(*v1);
+        auto const& type2 = typeid(*v2);
+        if (type1 != type2 and v1->getID() == v2->getID()) return type1.before(type2);
         return *v1 < *v2;
     }
 };
-- 
2.43.0


From 07a5b304e05fd2ed5bd70e0b59e381a8667ac21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 20/52] fix: one-norm of a split matrix includes the second
 summand

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..abaaac2 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -73,7 +73,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From ecb61ee4f6c1de3ae8a65bc0f75caf772542278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 21/52] fix: one-norm and maximum norm compile for zero, single
 precision and dynamic matrices

---
 include/BlasBooster/Core/Norm.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index abaaac2..f24a767 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -26,6 +26,26 @@ struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
     }
 };
 
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 /// norm function wrapper, forwarded to the NormFunctor for partial specialization
 template <class NormType, class MatrixType>
 inline double norm(MatrixType const& m)
@@ -133,7 +153,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max(norm, static_cast<double>(std::abs(*iterCur)));
         }
         return norm;
     }
-- 
2.43.0


From ad6aeda3b90cc43d919a377a5203b80199dc9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 22/52] fix: in-place operations on a split matrix apply the
 right operand once

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 64573cf..5986c62 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -527,7 +527,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -536,8 +535,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
     A.getMatrix2() += B.getMatrix2();
     return A;
 }
@@ -579,7 +576,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -588,8 +584,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
     A.getMatrix2() -= B.getMatrix2();
     return A;
 }
-- 
2.43.0


From 37b248c4c092dd89ab00719933698b98daef2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 23/52] fix: whole-matrix operations forget the cached norm and
 occupation

---
 include/BlasBooster/Core/BinaryFunctors.h |  2 ++
 include/BlasBooster/Core/DenseMatrix.h    | 14 ++++++++++++++
 include/BlasBooster/Core/NormPolicy.h     |  2 ++
 include/BlasBooster/Core/SparseMatrix.h   | 12 ++++++++++++
 include/BlasBooster/Core/ZeroMatrix.h     |  3 +++
 5 files changed, 33 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 5986c62..473e346 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -469,6 +469,7 @@ template <class M1, class T1,
 inline Matrix<M1,T1,P>& operator += (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
     BinaryAssignmentOperationFunctor<Plus,M1,T1,P,M2,T2,P>()(A,B);
+    A.resetCache();
     return A;
 }
 
@@ -488,6 +489,7 @@ template <class M1, class T1,
 inline Matrix<M1,T1,P>& operator -= (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
     BinaryAssignmentOperationFunctor<Minus,M1,T1,P,M2,T2,P>()(A,B);
+    A.resetCache();
     return A;
 }
 
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0288b75..f18aae3 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -202,6 +202,7 @@ public: // member functions
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
+        other.resetCache();
     }
 
     /// Default destructor
@@ -217,9 +218,17 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCache();
+        rhs.resetCache();
         return *this;
     }
 
+    /// Forget norm and occupation, must be called if elements were changed after these values have been requested
+    void resetCache() {
+        this->resetNorm();
+        this->reset();
+    }
+
     /// Set all elements to value
     Matrix& operator = (T value);
 
@@ -293,6 +302,8 @@ public: // member functions
         swap(a.nbColumns_,b.nbColumns_);
         swap(a.full_size_,b.full_size_);
         //swap(a.storage,b.storage);
+        a.resetCache();
+        b.resetCache();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -684,6 +695,7 @@ Matrix<Dense,T,P>& Matrix<Dense,T,P>::operator = (T value)
     {
         *iterCur = value;
     }
+    resetCache();
     return *this;
 }
 
@@ -694,6 +706,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
 {
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    resetCache();
     filler(*this);
 }
 
@@ -708,6 +721,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    resetCache();
 }
 
 template <class T, class P>
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..fc02596 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -37,6 +37,8 @@ public:
 
     bool isNormUpToDate() const { return isNormUpToDate_; };
 
+    void resetNorm() { isNormUpToDate_ = false; }
+
     void updateNorm() const
     {
         if (!isNormUpToDate_) {
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index c819295..902af15 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -93,6 +93,7 @@ public:
        storage(std::forward<storage>(rhs))
     {
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move constructor is called.");
+        rhs.resetCache();
     }
 
     /// Default destructor
@@ -107,9 +108,17 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCache();
+        rhs.resetCache();
         return *this;
     }
 
+    /// Forget norm and occupation, must be called if elements were changed after these values have been requested
+    void resetCache() {
+        this->resetNorm();
+        this->reset();
+    }
+
     //MatrixBase* clone() const { return new self(*this); }
 
     /// If nbSignificantElements equal zero, storage of size nbRows*nbColumns will be allocated.
@@ -131,6 +140,8 @@ public:
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
         swap(a.full_size_,b.full_size_);
+        a.resetCache();
+        b.resetCache();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -268,6 +279,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    resetCache();
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index d104c2f..6a109c6 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -46,6 +46,9 @@ public: // member functions
     /// Resize function for non-blocked matrix
     void resize(IndexType nbRows, IndexType nbColumns);
 
+    /// Norm and occupation are constant
+    void resetCache() {}
+
     bool operator == (self const& rhs) const {
         return dimension::operator==(rhs);
     }
-- 
2.43.0


From 7f7a7475192699ac3767c0dd3fd87b7d9c5d6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 24/52] fix: dense to sparse conversion counts the current
 elements instead of a cached number

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 902af15..24eaeff 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -197,7 +197,7 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(other.getNbOfSignificantElements(valueChecker), this->getMinorDimension() + 1)
+   storage(countDesiredElements(other, valueChecker), this->getMinorDimension() + 1)
 {
     iterator iterValueCur(this->begin());
     index_iterator iterKeyCur(this->beginKey());
-- 
2.43.0


From d6c6af374ec92e2598722cc73de17ab304ea5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 25/52] fix: occupation of an empty matrix is zero instead of
 NaN

---
 include/BlasBooster/Core/OccupationPolicy.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..94defe3 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -32,6 +32,8 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
+        // An empty matrix has no significant element
+        if (static_cast<const Derived*>(this)->getSize() == 0) return 0.0;
         return static_cast<double>(getNbOfSignificantElements(valueChecker))
             / static_cast<const Derived*>(this)->getSize();
     }
-- 
2.43.0


From 1cff0054baebb3029368f767862dca7695516624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 26/52] fix: single precision occupation threshold of zero
 matrices is used

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From 030a9e15ab3bbc3d90bc6caa6d3d188c6b68e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 27/52] fix: conversion to a sparse matrix keeps every
 significant element

---
 include/BlasBooster/Core/MatrixConverter.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..178079f 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
@@ -83,8 +83,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,float,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,float,P2>(matrix,
-            AbsoluteValueRangeChecker<double,ExclusiveBound,InclusiveBound>(
-                threshold.getSignificanceThreshold<double>(),threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 3384aaab7bb54ac5d5e6c78979862150cafb966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 28/52] fix: dense conversions apply a given value checker and
 keep every element without one

---
 .../Core/AbsoluteValueRangeChecker.h          |  7 +++++
 include/BlasBooster/Core/DenseMatrix.h        | 29 +++++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index 6fa584b..2ff2240 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -36,6 +36,13 @@ struct ValueCheckerLess
     }
 };
 
+/// Functor accepting every value, used if no value checker is given
+struct AllValues
+{
+    template <class ValueType>
+    bool operator () (ValueType const&) const { return true; }
+};
+
 /**
  * Functor returning true if the absolute value is within the range lowerThreshold < abs(value) <= upperThreshold
  * Throws if upperThreshold is not larger than lowerThreshold.
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index f18aae3..5a1efa1 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -115,7 +115,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValues>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -124,7 +124,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValues>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -133,7 +133,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValues>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, ColumnMajor>::value and
@@ -143,7 +143,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValues>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, RowMajor>::value and
@@ -327,6 +327,18 @@ private:
         ar & boost::serialization::base_object<storage>(*this);
     }
 
+    /// Set elements to zero which are not significant in the source of a conversion
+    template <class Source, class ValueChecker>
+    void eraseInsignificantElements(Source const& source, ValueChecker const& valueChecker)
+    {
+        for (IndexType column = 0; column != this->getNbColumns(); ++column)
+            for (IndexType row = 0; row != this->getNbRows(); ++row)
+                if (!valueChecker(source(row, column))) (*this)(row, column) = T();
+    }
+
+    template <class Source>
+    void eraseInsignificantElements(Source const&, AllValues const&) {}
+
     template <class U = P>
     size_t getPosition(IndexType row, typename P::IndexType column,
         typename std::enable_if<std::is_same<typename U::orientation, RowMajor>::value and !U::isSubMatrix>::type* = 0) const;
@@ -474,7 +486,9 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
     storage(other)
-{}
+{
+    eraseInsignificantElements(other, valueChecker);
+}
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
@@ -486,7 +500,9 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
     storage(transpose(other))
-{}
+{
+    eraseInsignificantElements(other, valueChecker);
+}
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
@@ -531,6 +547,7 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
         }
         otherIterCur += leadingDifference;
     }
+    eraseInsignificantElements(other, valueChecker);
 }
 
 /// Conversion from blocked DenseMatrix
-- 
2.43.0


From a9d1d65718ab2b99e4b7b68760ac4ee76f11af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 29/52] fix: stepping back from the end of a strided range
 visits the last element

---
 include/BlasBooster/Core/StripedIterator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..8c8da81 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -61,8 +61,10 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            // There is no separator in front of the first block and behind the last one
+            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
+            --block_;
             position_ = continuousSizeMinus1_;
         } else {
             --iter_;
-- 
2.43.0


From ad9a0450ebebade48c03f1580abade5c6f290fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 30/52] fix: empty block views have an empty range of elements

---
 include/BlasBooster/Core/Storage.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 80c6647..b918dec 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -608,19 +608,19 @@ public:
     }
 
     iterator rbegin() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + getEndOffset() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + getEndOffset() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + getEndOffset(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + getEndOffset(), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
@@ -631,6 +631,11 @@ public:
         return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
+    /// Distance from the first to one past the last element, zero if there are no elements
+    size_t getEndOffset() const {
+        return size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0;
+    }
+
     size_t size() const {
         return size_;
     }
-- 
2.43.0


From dd75cd67fe60245df1a3738e65ddddb47cd6e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 31/52] fix: moving a view or blocked matrix keeps its leading
 and unblocked dimensions

---
 include/BlasBooster/Core/DenseMatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 5a1efa1..b9ce13c 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,6 +199,8 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
-- 
2.43.0


From a8d255cb73f2d723585ad584d2f1816b434c27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 32/52] fix: swap of blocked matrices exchanges the unblocked
 dimensions too

---
 include/BlasBooster/Core/DenseMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index b9ce13c..c66abcf 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -303,6 +303,7 @@ public: // member functions
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
         swap(a.full_size_,b.full_size_);
+        swap(static_cast<unblockedDimension&>(a),static_cast<unblockedDimension&>(b));
         //swap(a.storage,b.storage);
         a.resetCache();
         b.resetCache();
-- 
2.43.0


From 448c32f78cd6cf1af9df79e8b09165af4bf2ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 33/52] fix: resize of a blocked matrix updates the number of
 blocks

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index c66abcf..a12771e 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -736,8 +736,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
-- 
2.43.0


From a1618bb6a89bb5e9e1e473d598bb10772a45e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 34/52] fix: type counting of a blocked matrix starts at zero

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From ee1578360607b325d2e80b98eebc9a87141a5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 35/52] fix: block size generation ends if no block can be
 divided

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..fd237e7 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,8 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // None of these indices leaves two blocks which are large enough
+            if (largest_min == 0) break;
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 89276e092d6cb574ccd2ff45449bfae867c820b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 36/52] fix: block detection compares rows and columns of
 column-major matrices

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index fd237e7..1ffee19 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -115,23 +115,16 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
     std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
 
-    typename Matrix<Dense,T,P>::const_iterator iter1(matrix_log.begin()),
-        iter2(matrix_log.begin() + 1), iter3(matrix_log.begin() + matrix.getNbColumns());
-
-    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i)
-    {
-        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2, ++iter3)
-        {
-            row_detect[i] += std::abs(*iter1 - *iter3);
-            col_detect[j] += std::abs(*iter1 - *iter2);
+    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i) {
+        for (size_t j = 0; j != matrix.getNbColumns(); ++j) {
+            row_detect[i] += std::abs(matrix_log(i, j) - matrix_log(i + 1, j));
         }
-        row_detect[i] += std::abs(*iter1 - *iter3);
-        ++iter1, ++iter2, ++iter3;
     }
 
-    for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2)
-    {
-        col_detect[j] += std::abs(*iter1 - *iter2);
+    for (size_t i = 0; i != matrix.getNbRows(); ++i) {
+        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j) {
+            col_detect[j] += std::abs(matrix_log(i, j) - matrix_log(i, j + 1));
+        }
     }
 
     return std::make_tuple(row_detect, col_detect);
-- 
2.43.0


From 9a7b83987614a52987b85fecd01780867e9c8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 37/52] fix: dispatch on a matrix type that is not listed
 throws instead of reading out of bounds

---
 include/BlasBooster/Utilities/exec_dyn.h      | 2 +-
 include/BlasBooster/Utilities/exec_dyn_2dim.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/exec_dyn.h b/include/BlasBooster/Utilities/exec_dyn.h
index 63e1d02..82ff610 100644
--- a/include/BlasBooster/Utilities/exec_dyn.h
+++ b/include/BlasBooster/Utilities/exec_dyn.h
@@ -18,7 +18,7 @@ std::array<FunctionType, sizeof...(Args)>
 template <class TypeList, template <class ...> class Executor, class ExecutorExtraTypes, class FunctionType>
 inline typename FunctionType::result_type exec_dyn(DynamicMatrix const& ptrA)
 {
-    return DynFuncGenerator<FunctionType, Executor, ExecutorExtraTypes, TypeList>::dynFunc[ptrA->getTypeIndex()](ptrA);
+    return DynFuncGenerator<FunctionType, Executor, ExecutorExtraTypes, TypeList>::dynFunc.at(ptrA->getTypeIndex())(ptrA);
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Utilities/exec_dyn_2dim.h b/include/BlasBooster/Utilities/exec_dyn_2dim.h
index 5f4f29f..a6a6462 100644
--- a/include/BlasBooster/Utilities/exec_dyn_2dim.h
+++ b/include/BlasBooster/Utilities/exec_dyn_2dim.h
@@ -33,7 +33,7 @@ std::array<std::array<FunctionType, sizeof...(Args)>, sizeof...(Args)>
 template <class TypeList, template <class ...> class Executor, class ExecutorExtraTypes, class FunctionType>
 inline typename FunctionType::result_type exec_dyn_2dim(DynamicMatrix const& ptrA, DynamicMatrix const& ptrB)
 {
-    return DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList, TypeList>::dynFunc[ptrA->getTypeIndex()][ptrB->getTypeIndex()](ptrA, ptrB);
+    return DynFuncGenerator2<FunctionType, Executor, ExecutorExtraTypes, TypeList, TypeList>::dynFunc.at(ptrA->getTypeIndex()).at(ptrB->getTypeIndex())(ptrA, ptrB);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 4a3a1312f53607a5e8128462b41a8457bf70a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 38/52] fix: loading a storage releases its old memory and
 never takes over external memory

---
 include/BlasBooster/Core/Storage.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index b918dec..84ef741 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -280,7 +280,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
@@ -499,10 +498,11 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        size_t size;
+        ar >> size;
+        self other(size);
+        for ( size_t i(0); i != size; ++i ) ar >> other.data_[i];
+        swap(*this, other);
     }
 
     T* data_;
-- 
2.43.0


From 07d0042ecca32e4ff912f9464aa5efe719e26d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 39/52] fix: loading a dense matrix forgets the cached norm and
 occupation

---
 include/BlasBooster/Core/DenseMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index a12771e..eb02aba 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -328,6 +328,7 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        if (Archive::is_loading::value) resetCache();
     }
 
     /// Set elements to zero which are not significant in the source of a conversion
-- 
2.43.0


From d707338b439a9c70e1eab5ef72cc459f50317950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 40/52] fix: leading dimensions of empty matrices passed to
 BLAS are at least one

---
 .../Core/Multiplication_IntelMKL.h            | 33 ++++++++++++-------
 .../Core/Multiplication_OpenBLAS.h            | 13 ++++----
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index f162a06..c36bf0c 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -32,21 +32,27 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char n = 'N';
         T alpha = 1.0;
         T beta = 0.0;
+        int M = A.getNbRows();
+        int N = B.getNbColumns();
+        int K = A.getNbColumns();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         BlasInterface<IntelMKL, FuncType>()(
             &n,
             &n,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &M,
+            &N,
+            &K,
             &alpha,
             const_cast<T*>(A.data_),
-            reinterpret_cast<const int*>(&A.nbRows_),
+            &LDA,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &LDB,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &LDC
         );
     }
 };
@@ -73,6 +79,11 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char matdescra[6] = {'G', 'L', 'N', 'F', 'X', 'X'};
         T alpha = 1.0;
         T beta = 0.0;
+        int M = A.getNbRows();
+        int N = B.getNbColumns();
+        int K = A.getNbColumns();
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         // TODO: Add parameter for index-base
         Matrix<Sparse, T, Parameter<size_t, RowMajor>> rmA(A);
@@ -89,9 +100,9 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
 
         BlasInterface<IntelMKL, FuncType>()(
             &n,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &M,
+            &N,
+            &K,
             &alpha,
             matdescra,
             const_cast<T*>(rmA.value_.getDataPointer()),
@@ -99,10 +110,10 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             &rmA_offset[0],
             &rmA_offset[1],
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &LDB,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &LDC
         );
     }
 };
diff --git a/include/BlasBooster/Core/Multiplication_OpenBLAS.h b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
index 58fe6cd..ee7a818 100644
--- a/include/BlasBooster/Core/Multiplication_OpenBLAS.h
+++ b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include "BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h"
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/Multiplication.h"
@@ -25,9 +26,9 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,OpenBL
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         double *pA = const_cast<double*>(A.getDataPointer());
         double *pB = const_cast<double*>(B.getDataPointer());
@@ -55,9 +56,9 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,OpenBLAS>
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         float *pA = const_cast<float*>(A.getDataPointer());
         float *pB = const_cast<float*>(B.getDataPointer());
-- 
2.43.0


From 503570d42144d5cb80b0a225e3bd9397fba59265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 41/52] fix: Eigen products of mixed precision compile

---
 include/BlasBooster/Core/Multiplication_Eigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Eigen.h b/include/BlasBooster/Core/Multiplication_Eigen.h
index 80f9b45..d75be8f 100644
--- a/include/BlasBooster/Core/Multiplication_Eigen.h
+++ b/include/BlasBooster/Core/Multiplication_Eigen.h
@@ -63,7 +63,7 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXd> eB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA.template cast<double>() * eB;
     }
 };
 
@@ -83,7 +83,7 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXf> eB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA * eB.template cast<double>();
     }
 };
 
-- 
2.43.0


From 1dd8c6c517c621a818ad49e719af78a2e0df3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 42/52] fix: a matrix file that is too short is refused

---
 include/BlasBooster/Core/MatrixFileIO.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..9566030 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -40,11 +40,13 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     T* dataPointer = matrix.getDataPointer();
 
     if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
-        is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
+        if (!is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T)))
+            throw BlasBoosterException("Error reading file " + settings.filename);
     } else {
         is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
         for (size_t col = 0; col < settings.nbColumns; ++col) {
-            is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T));
+            if (!is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T)))
+                throw BlasBoosterException("Error reading file " + settings.filename);
             dataPointer += settings.nbRows;
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
-- 
2.43.0


From 1628be217cea4b8a24983bc8caa3f1ad24f1aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 43/52] fix: bands wider than the matrix stay inside the matrix

---
 src/Benchmark/MatrixProvider.cpp  | 2 +-
 src/Benchmark/generate_matrix.cpp | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..88a2064 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -25,7 +25,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 for (auto&& dim : dim_list) {
                     for (auto&& band_width : band_width_list) {
                         Matrix<Dense, double> matrix(dim, dim, AllFiller<double>(0.0));
-                        for (size_t b = 0; b != band_width; ++b) {
+                        for (size_t b = 0; b < band_width and b < dim; ++b) {
                             for (size_t i = 0; i != dim-b; ++i) {
                                 matrix(i+b, i) = value;
                                 matrix(i, i+b) = value;
diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 69d79e8..72c9e72 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -46,10 +46,8 @@ int main(int argc, char* argv[])
         if (type == "band") {
             matrix = Matrix<Dense, double>{rows, cols, AllFiller<double>{0.0}};
             for (size_t b = 0; b != band_width; ++b) {
-                for (size_t i = 0; i != rows-b; ++i) {
-                    matrix(i+b,i) = value;
-                    matrix(i,i+b) = value;
-                }
+                for (size_t i = 0; i + b < rows and i < cols; ++i) matrix(i+b,i) = value;
+                for (size_t i = 0; i < rows and i + b < cols; ++i) matrix(i,i+b) = value;
             }
         } else {
             DynamicMatrix D(new Matrix<Dense,double>(1000, 1000, DiagonalFiller<double>(0.1)));
-- 
2.43.0


From 20afeb3353915d72f7910f1f4eb6d24b209ba019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 44/52] fix: unknown actions and matrix sets are reported

---
 src/Benchmark/ActionProvider.cpp     | 2 +-
 src/Benchmark/MatrixProvider.cpp     | 3 ++-
 src/Benchmark/MatrixProvider.h       | 2 +-
 src/Benchmark/matrix_matrix_mult.cpp | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 88a2064..aa070ab 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -1,5 +1,6 @@
 #include "MatrixProvider.h"
 #include <iostream>
+#include <stdexcept>
 
 namespace BlasBooster {
 
@@ -41,7 +42,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type.");
             }
         }
     }
diff --git a/src/Benchmark/MatrixProvider.h b/src/Benchmark/MatrixProvider.h
index 44f30ae..ed67a13 100644
--- a/src/Benchmark/MatrixProvider.h
+++ b/src/Benchmark/MatrixProvider.h
@@ -24,7 +24,7 @@ public:
 
     bool operator == (MatrixProvider const& other) const { return matrix_set == other.matrix_set; }
 
-    MatrixList get(std::string const& name) const { return matrix_set.find(name)->second; }
+    MatrixList get(std::string const& name) const { return matrix_set.at(name); }
 
 private:
 
diff --git a/src/Benchmark/matrix_matrix_mult.cpp b/src/Benchmark/matrix_matrix_mult.cpp
index b04b9d3..1268f40 100644
--- a/src/Benchmark/matrix_matrix_mult.cpp
+++ b/src/Benchmark/matrix_matrix_mult.cpp
@@ -199,7 +199,7 @@ matrix_matrix_mult(std::string const& action, BrainTwister::Benchmark const& ben
     }
     else
     {
-        std::runtime_error(std::string("Unknown action: ") + action);
+        throw std::runtime_error(std::string("Unknown action: ") + action);
     }
 
     return std::make_tuple(C, time, details);
-- 
2.43.0


From 3f1fce73e45ac5ee30df5a40b8e376d03d98d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 45/52] fix: borders wider than a block stay inside the block

---
 src/Benchmark/show_pattern.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/show_pattern.cpp b/src/Benchmark/show_pattern.cpp
index 296292c..05c4b79 100644
--- a/src/Benchmark/show_pattern.cpp
+++ b/src/Benchmark/show_pattern.cpp
@@ -111,9 +111,9 @@ int main(int argc, char* argv[])
 
                     AllFiller<double>(std::pow(10, -1.0 * (*type_column_cur)))(sub_matrix);
 
-                    for (int i = 0; i != border_width; ++i) {
-                        for (size_t j = 0; j != (*dim_column_cur).first; ++j) sub_matrix(j,i) = 0.0;
-                        for (size_t j = border_width; j != (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
+                    for (int i = 0; i < border_width; ++i) {
+                        for (size_t j = 0; j != (*dim_column_cur).first and i < (*dim_column_cur).second; ++j) sub_matrix(j,i) = 0.0;
+                        for (size_t j = border_width; j < (*dim_column_cur).second and i < (*dim_column_cur).first; ++j) sub_matrix(i,j) = 0.0;
                     }
 
                     // TODO: rowOffset is ideally determined one time (all submatrices in a column have the same row size).
-- 
2.43.0


From 34ffe1eccb569822832c7b035270e7fa65e9caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 46/52] fix: output files that cannot be written are reported

---
 include/BlasBooster/Core/PatternGenerator.h | 1 +
 src/Benchmark/generate_matrix.cpp           | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 8c79a20..a6e4ee9 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -45,6 +45,7 @@ template <class T, class P>
 void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::path const& file) const
 {
     std::ofstream outfile(file.string());
+    if (!outfile) throw BlasBoosterException("Can't open file " + file.string());
 
     // <width> <height> <colors> <char on pixel>
     outfile << "/* XPM */\nstatic char * matrix_xpm[] = {\n\""
diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 72c9e72..87fae37 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -59,7 +59,8 @@ int main(int argc, char* argv[])
         }
 
         std::ofstream os(matrix_file, std::ofstream::binary);
-        os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double));
+        if (!os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double)))
+            throw BlasBoosterException("Can't write file " + matrix_file);
 
     } catch ( BlasBoosterException const& e ) {
         std::cout << "BlasBooster exception: " << e.what() << std::endl;
-- 
2.43.0


From 9bd8a7cce1bb519c6fc1b9c8c0a5b1b57e69acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 47/52] fix: a difference matrix that cannot be written is
 reported

---
 src/Benchmark/benchmark.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Benchmark/benchmark.cpp b/src/Benchmark/benchmark.cpp
index 5c615b5..5a67dc7 100644
--- a/src/Benchmark/benchmark.cpp
+++ b/src/Benchmark/benchmark.cpp
@@ -110,7 +110,8 @@ int main(int argc, char* argv[])
 
                 if (write_diff) {
                     std::ofstream os(std::string("diff_") + std::to_string(i) + ".dat", std::ofstream::binary);
-                    os.write(reinterpret_cast<const char*>(diff.getDataPointer()), diff.getSize()*sizeof(double));
+                    if (!os.write(reinterpret_cast<const char*>(diff.getDataPointer()), diff.getSize()*sizeof(double)))
+                        throw std::runtime_error("Can't write difference matrix");
                 }
             }
         }
-- 
2.43.0


From 64c17c4d246beb7246dfd7079ada7bdc8a96609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 48/52] fix: Intel MKL product of sparse matrices passes the
 transposed problem and its dimensions

---
 .../Core/Multiplication_IntelMKL.h            | 148 +++++++++---------
 1 file changed, 70 insertions(+), 78 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index c36bf0c..28125ac 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -3,8 +3,10 @@
 #include <algorithm>
 #include <iostream>
 #include <type_traits>
+#include <vector>
 
 #include "BlasBooster/BlasInterface/BlasInterface_IntelMKL.h"
+#include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/MatrixIO.h"
 #include "BlasBooster/Core/Multiplication.h"
@@ -132,86 +134,76 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         >::type tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
-        C.resize(A.getNbRows(), B.getNbColumns());
-
-        char n = 'N';
-        int request = 1;
-        int sort = 8;
-        int info;
-
-        std::vector<int> A_key(A.key_.size());
-        std::transform(A.key_.begin(), A.key_.end(), A_key.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> A_offset(A.offset_.size());
-        std::transform(A.offset_.begin(), A.offset_.end(), A_offset.begin(), [](size_t value){
-            return ++value;
-        });
 
-        std::vector<int> B_key(B.key_.size());
-        std::transform(B.key_.begin(), B.key_.end(), B_key.begin(), [](size_t value){
-            return ++value;
-        });
-
-        std::vector<int> B_offset(B.offset_.size());
-        std::transform(B.offset_.begin(), B.offset_.end(), B_offset.begin(), [](size_t value){
-            return ++value;
-        });
+        // The routine multiplies matrices stored by rows. The arrays of a column-major matrix
+        // are those of its transpose stored by rows: C = A*B is calculated as C^T = B^T*A^T.
+        constexpr bool rowMajor = std::is_same<typename P::orientation, RowMajor>::value;
+        Matrix<Sparse,T,P> const& L = rowMajor ? A : B;
+        Matrix<Sparse,T,P> const& R = rowMajor ? B : A;
 
-        std::vector<int> C_key(C.key_.size());
-        std::vector<int> C_offset(C.offset_.size());
-
-        BlasInterface<IntelMKL, FuncType>()(
-            &n,
-            &request,
-            &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
-            &info
-        );
-        assert(info == 0);
-
-        request = 2;
-        BlasInterface<IntelMKL, FuncType>()(
-            &n,
-            &request,
-            &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
-            &info
-        );
-        assert(info == 0);
-
-        std::transform(C_key.begin(), C_key.end(), C.key_.begin(), [](int value){
-            return --value;
-        });
-
-        std::transform(C_offset.begin(), C_offset.end(), C.offset_.begin(), [](int value){
-            return --value;
-        });
+        char n = 'N';
+        int sort = 4; // sort the columns of each row of the result
+        int nbRowsL = L.sizeOffset() - 1;
+        int nbColumnsL = R.sizeOffset() - 1;
+        int nbColumnsR = rowMajor ? B.getNbColumns() : A.getNbRows();
+        int nzmax = 0;
+        int info = 0;
+
+        auto toOneBased = [](typename P::IndexType value){ return static_cast<int>(value + 1); };
+        auto toZeroBased = [](int value){ return static_cast<typename P::IndexType>(value - 1); };
+
+        std::vector<int> L_key(L.nnz());
+        std::transform(L.beginKey(), L.endKey(), L_key.begin(), toOneBased);
+
+        std::vector<int> L_offset(L.sizeOffset());
+        std::transform(L.beginOffset(), L.endOffset(), L_offset.begin(), toOneBased);
+
+        std::vector<int> R_key(R.nnz());
+        std::transform(R.beginKey(), R.endKey(), R_key.begin(), toOneBased);
+
+        std::vector<int> R_offset(R.sizeOffset());
+        std::transform(R.beginOffset(), R.endOffset(), R_offset.begin(), toOneBased);
+
+        std::vector<T> C_value;
+        std::vector<int> C_key;
+        std::vector<int> C_offset(L.sizeOffset(), 1);
+
+        // First determine the number of elements, then calculate them
+        for (int request = 1; request <= 2 and nbRowsL != 0; ++request)
+        {
+            BlasInterface<IntelMKL, FuncType>()(
+                &n,
+                &request,
+                &sort,
+                &nbRowsL,
+                &nbColumnsL,
+                &nbColumnsR,
+                const_cast<T*>(L.value_.getDataPointer()),
+                L_key.data(),
+                L_offset.data(),
+                const_cast<T*>(R.value_.getDataPointer()),
+                R_key.data(),
+                R_offset.data(),
+                C_value.data(),
+                C_key.data(),
+                C_offset.data(),
+                &nzmax,
+                &info
+            );
+            if (info != 0) throw CoreException("Multiplication of sparse matrices by Intel MKL failed.");
+
+            if (request == 1) {
+                nzmax = C_offset.back() - 1;
+                C_value.resize(nzmax);
+                C_key.resize(nzmax);
+            }
+        }
+
+        C.resize(A.getNbRows(), B.getNbColumns(), nzmax);
+        C.shrink(nzmax);
+        std::copy(C_value.begin(), C_value.end(), C.begin());
+        std::transform(C_key.begin(), C_key.end(), C.beginKey(), toZeroBased);
+        std::transform(C_offset.begin(), C_offset.end(), C.beginOffset(), toZeroBased);
     }
 };
 
-- 
2.43.0


From 1fe69807f4a037adb5a1bf624cf37466ec39deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 49/52] fix: deviations compare elements of the same position,
 numbering a row-major sparse matrix stays inside

---
 include/BlasBooster/Core/MatrixFiller.h       |  4 +--
 .../Core/StatisticalErrorInformation.h        | 29 ++++++++++++++-----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 8dd30f0..71362ad 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -56,10 +56,10 @@ struct ContinuousNumberFiller
         typename P::IndexType offset(0), key;
         typename Matrix<Sparse,T,P>::index_iterator iterKeyCur(matrix.beginKey());
         typename Matrix<Sparse,T,P>::index_iterator iterOffsetCur(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1);
-        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getNbRows())
+        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getMajorDimension())
         {
             key = 0;
-            while (key != matrix.getNbRows())
+            while (key != matrix.getMajorDimension())
             {
                 *iterKeyCur = key;
                 ++iterKeyCur;
diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 9dd55f8..53b1c1c 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -1,14 +1,24 @@
 #pragma once
 
+#include <algorithm>
+#include <cmath>
+
+#include "BlasBooster/Core/CoreException.h"
+#include "BlasBooster/Core/DenseMatrix.h"
+
 namespace BlasBooster {
 
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    // Same order of the elements, whatever kind of matrix and storage order
+    const Matrix<Dense,double> denseA(A), denseB(B);
+    if (denseA.getNbRows() != denseB.getNbRows() or denseA.getNbColumns() != denseB.getNbColumns())
+        throw CoreException("getMaximalDeviation: Matrix dimensions differ.");
+
     double maximalDeviation(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
-    for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
+    for (auto iterACur(denseA.begin()), iterAEnd(denseA.end()), iterBCur(denseB.begin());
+        iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         maximalDeviation = std::max(maximalDeviation, std::abs(*iterACur - *iterBCur));
     }
@@ -18,14 +28,19 @@ double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    // Same order of the elements, whatever kind of matrix and storage order
+    const Matrix<Dense,double> denseA(A), denseB(B);
+    if (denseA.getNbRows() != denseB.getNbRows() or denseA.getNbColumns() != denseB.getNbColumns())
+        throw CoreException("getRootMeanSquareDeviation: Matrix dimensions differ.");
+    if (denseA.getNbRows() == 0 or denseA.getNbColumns() == 0) return 0.0;
+
     double meanSquare(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
-    for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
+    for (auto iterACur(denseA.begin()), iterAEnd(denseA.end()), iterBCur(denseB.begin());
+        iterACur != iterAEnd; ++iterACur, ++iterBCur )
     {
         meanSquare += std::pow(*iterACur - *iterBCur, 2);
     }
-    return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
+    return std::sqrt(meanSquare/(denseA.getNbRows()*denseA.getNbColumns()));
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From f64be8e9500e689e6f2a92a5237e489ec65bf11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 50/52] fix: equal compares elements of the same position and
 checks the dimensions of sparse matrices

---
 include/BlasBooster/Core/DenseMatrix.h              | 12 +++++++++---
 include/BlasBooster/Core/SparseMatrix.h             | 13 +++++++++++++
 .../Utilities/EqualWithinNumericalAccuracy.h        |  4 +++-
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index eb02aba..60adba2 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -257,9 +257,15 @@ public: // member functions
 
     template <class T2, class P2>
     bool equal(Matrix<Dense,T2,P2> const& rhs) const {
-        return storage::equal(rhs)
-            and this->getNbRows() == rhs.getNbRows()
-            and this->getNbColumns() == rhs.getNbColumns();
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        if constexpr (std::is_same<typename P::orientation, typename P2::orientation>::value and !P::isSubMatrix and !P2::isSubMatrix) {
+            return storage::equal(rhs);
+        } else {
+            for (size_t i(0); i != this->getNbRows(); ++i)
+                for (size_t j(0); j != this->getNbColumns(); ++j)
+                    if (!equalWithinNumericalAccuracy((*this)(i,j), rhs(i,j))) return false;
+            return true;
+        }
     }
 
     template <class T2, class P2>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 24eaeff..32d07ec 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -128,6 +128,19 @@ public:
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
 
+    /// Equal dimensions and stored elements
+    template <class T2, class P2>
+    bool equal(Matrix<Sparse,T2,P2> const& rhs) const {
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        if constexpr (std::is_same<typename P::orientation, typename P2::orientation>::value) return storage::equal(rhs);
+        else return storage::equal(Matrix<Sparse,T2,P>(rhs));
+    }
+
+    template <class T2, class P2>
+    bool notEqual(Matrix<Sparse,T2,P2> const& rhs) const {
+        return !equal(rhs);
+    }
+
     const std::type_info& getTypeInfo() const { return typeid(*this); }
 
     size_t getTypeIndex() const { return typeIndex_; }
diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..b370d0b 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <complex>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -17,7 +18,8 @@ template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    if constexpr (std::is_unsigned<T1>::value and std::is_unsigned<T2>::value) return v1 == v2;
+    else return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 28b3ba794cf3ace9dd11cbba79bba069c16cf031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 51/52] fix: separate the columns of the tracker table

---
 include/BlasBooster/Utilities/Tracker.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e2373a7..08c602b 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -82,8 +82,8 @@ enum class TrackerID {
 
         static std::ostream& print(std::ostream& os)
         {
-            os << "\n"
-               << std::setw(20) << "tracker"
+            os << "\n" << std::left
+               << std::setw(22) << "tracker"
                << std::setw(10) << "count"
                << "time\n"
                << std::string(60,'-')
@@ -91,7 +91,7 @@ enum class TrackerID {
 
             for (size_t i = 0; i != static_cast<size_t>(TrackerID::size); ++i) {
                 if (count[i] == 0) continue;
-                os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
+                os << std::setw(22) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
                    << std::setw(10) << count[i]
                    << time[i].count() << " ns"
                    << std::endl;
-- 
2.43.0


From 6eaf0f87075961b2228b3363e1742b6f17842fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 52/52] fix: keep only significant elements when a sparse
 matrix is converted with a checker

---
 include/BlasBooster/Core/SparseMatrix.h | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 32d07ec..9093066 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -68,7 +68,8 @@ public:
     Matrix(IndexType nbRows, IndexType nbColumns, IndexType nbSignificantElements = 0, Filler const& filler = Filler());
 
     /// Conversion from SparseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<T>>
+    /// Only significant elements will be stored.
+    template <class T2, class P2, class ValueChecker = AllValues>
     Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker());
 
     /// Conversion from DenseMatrix
@@ -197,12 +198,38 @@ Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType n
     filler(*this);
 }
 
+template <class T, class P>
+Matrix<Sparse,T,P> const& significantElements(Matrix<Sparse,T,P> const& matrix, AllValues const&)
+{
+    return matrix;
+}
+
+/// Sparse matrix with the significant elements only
+template <class T, class P, class ValueChecker>
+Matrix<Sparse,T,P> significantElements(Matrix<Sparse,T,P> matrix, ValueChecker const& valueChecker)
+{
+    typename P::IndexType cur(0), nbSignificantElements(0);
+    for (auto iterOffset(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1); iterOffset != iterOffsetEnd; ++iterOffset)
+    {
+        *iterOffset = nbSignificantElements;
+        for (typename P::IndexType end(*(iterOffset + 1)); cur != end; ++cur) {
+            if (!valueChecker(matrix.begin()[cur])) continue;
+            matrix.begin()[nbSignificantElements] = matrix.begin()[cur];
+            matrix.beginKey()[nbSignificantElements++] = matrix.beginKey()[cur];
+        }
+    }
+    *(matrix.endOffset() - 1) = nbSignificantElements;
+    matrix.shrink(nbSignificantElements);
+    return matrix;
+}
+
 // Conversion from SparseMatrix
 template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
+   storage(std::is_same<typename P::orientation, typename P2::orientation>::value
+       ? significantElements(other, valueChecker) : transpose(significantElements(other, valueChecker)))
 {}
 
 // Conversion from DenseMatrix
-- 
2.43.0

