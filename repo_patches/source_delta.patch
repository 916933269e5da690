From 80b9bee86e40983517d2656afe3b32adf912938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 01/61] fix: leave Lie group elements intact when stream
 extraction fails

A truncated or unparsable SO2/SE2/SO3/SE3/SIM2/SIM3/SL record left the
element half overwritten and then coerced it: the result was NaN or, for
the three dimensional groups and SL, a failed assertion.
---
 TooN/se2.h  |  9 +++++++--
 TooN/se3.h  |  9 +++++++--
 TooN/sim2.h | 11 ++++++++---
 TooN/sim3.h | 11 ++++++++---
 TooN/sl.h   |  7 +++++--
 TooN/so2.h  |  5 +++--
 TooN/so3.h  |  5 +++--
 7 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..8369fb7 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -157,9 +157,14 @@ inline std::ostream& operator<<(std::ostream& os, const SE2<Precision> & rhs){
 /// @relates SE2
 template <class Precision>
 inline std::istream& operator>>(std::istream& is, SE2<Precision>& rhs){
+	Matrix<2,2,Precision> m;
+	Vector<2,Precision> t;
 	for(int i=0; i<2; i++)
-		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
-	rhs.get_rotation().coerce();
+		is >> m[i].ref() >> t[i];
+	if(is){
+		rhs.get_rotation() = m;
+		rhs.get_translation() = t;
+	}
 	return is;
 }
 
diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..c48f3de 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -238,10 +238,15 @@ inline std::ostream& operator <<(std::ostream& os, const SE3<Precision>& rhs){
 /// @relates SE3
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SE3<Precision>& rhs){
+	Matrix<3,3,Precision> m;
+	Vector<3,Precision> t;
 	for(int i=0; i<3; i++){
-		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
+		is >> m[i].ref() >> t[i];
+	}
+	if(is){
+		rhs.get_rotation() = m;
+		rhs.get_translation() = t;
 	}
-	rhs.get_rotation().coerce();
 	return is;
 }
 
diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..5db1379 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -171,10 +171,15 @@ inline std::ostream& operator<<(std::ostream& os, const SIM2<Precision> & rhs){
 /// @relates SIM2
 template <class Precision>
 inline std::istream& operator>>(std::istream& is, SIM2<Precision>& rhs){
+	Matrix<2,2,Precision> m;
+	Vector<2,Precision> t;
 	for(int i=0; i<2; i++)
-		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
-	rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]))/2;
-	rhs.get_rotation().coerce();
+		is >> m[i].ref() >> t[i];
+	if(is){
+		rhs.get_scale() = (norm(m[0]) + norm(m[1]))/2;
+		rhs.get_rotation() = m;
+		rhs.get_translation() = t;
+	}
 	return is;
 }
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..36a27ab 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -265,11 +265,16 @@ inline std::ostream& operator <<(std::ostream& os, const SIM3<Precision>& rhs){
 /// @relates SIM3
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SIM3<Precision>& rhs){
+	Matrix<3,3,Precision> m;
+	Vector<3,Precision> t;
 	for(int i=0; i<3; i++){
-		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
+		is >> m[i].ref() >> t[i];
+	}
+	if(is){
+		rhs.get_scale() = (norm(m[0]) + norm(m[1]) + norm(m[2]))/3;
+		rhs.get_rotation() = m;
+		rhs.get_translation() = t;
 	}
-	rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]) + norm(rhs.get_rotation().my_matrix[2]))/3;
-	rhs.get_rotation().coerce();
 	return is;
 }
 
diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..a46e533 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -215,8 +215,11 @@ std::ostream & operator<<(std::ostream & out, const SL<N, P> & h){
 
 template <int N, typename P>
 std::istream & operator>>(std::istream & in, SL<N, P> & h){
-	in >> h.my_matrix;
-	h.coerce();
+	Matrix<N,N,P> m;
+	if(in >> m){
+		h.my_matrix = m;
+		h.coerce();
+	}
 	return in;
 }
 
diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..125e49f 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -144,8 +144,9 @@ inline std::ostream& operator<< (std::ostream& os, const SO2<Precision> & rhs){
 /// @relates SO2
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SO2<Precision>& rhs){
-	is >> rhs.my_matrix;
-	rhs.coerce();
+	Matrix<2,2,Precision> m;
+	if(is >> m)
+		rhs = m;
 	return is;
 }
 
diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..4f9c3f9 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -199,8 +199,9 @@ inline std::ostream& operator<< (std::ostream& os, const SO3<Precision>& rhs){
 /// @relates SO3
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SO3<Precision>& rhs){
-	is >> rhs.my_matrix;
-	rhs.coerce();
+	Matrix<3,3,Precision> m;
+	if(is >> m)
+		rhs = m;
 	return is;
 }
 
-- 
2.43.0


From cb062f2a7a62a005116455827cf7b2a1001564e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 02/61] fix: release the accumulators of the row/column extrema
 when an exception passes

---
 TooN/helpers.h | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..bed086b 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -35,6 +35,7 @@
 #include <algorithm>
 #include <cmath>
 #include <functional>
+#include <memory>
 #include <utility>
 
 #ifndef M_PI
@@ -597,13 +598,12 @@ namespace TooN {
         };
         template<typename Precision, typename ComparisonFunctor>
         class accumulate_vertical_functor {
-            Vector<Dynamic,Precision>* bestVal;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestVal;
         public:
             accumulate_vertical_functor() {
-                bestVal = NULL;
             }
             accumulate_vertical_functor( int nNumCols ) {
-                bestVal = new Vector<Dynamic,Precision>( nNumCols );
+                bestVal.reset(new Vector<Dynamic,Precision>( nNumCols ));
             }
             Vector<Dynamic,Precision> null() {
                 return Vector<Dynamic,Precision>( 0 );
@@ -617,26 +617,23 @@ namespace TooN {
                 }
             }
             Vector<Dynamic,Precision> ret() {
-                if( bestVal == NULL ) {
+                if( !bestVal ) {
                     return null();
                 }
                 Vector<Dynamic,Precision> vRet = *bestVal; 
-                delete bestVal;
                 return vRet;
             }            
         };
         template<typename Precision, typename ComparisonFunctor>
         class accumulate_element_vertical_functor {
-            Vector<Dynamic,Precision>* bestVal;
-            Vector<Dynamic,Precision>* bestIndices;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestVal;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestIndices;
         public:
             accumulate_element_vertical_functor() {
-                bestVal = NULL;
-                bestIndices = NULL;
             }
             accumulate_element_vertical_functor( int nNumCols ) {
-                bestVal = new Vector<Dynamic,Precision>( nNumCols );
-                bestIndices = new Vector<Dynamic,Precision>( nNumCols );
+                bestVal.reset(new Vector<Dynamic,Precision>( nNumCols ));
+                bestIndices.reset(new Vector<Dynamic,Precision>( nNumCols ));
             }
             std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > null() {
                 Vector<Dynamic,Precision> vEmpty( 0 );
@@ -653,25 +650,22 @@ namespace TooN {
                 }
             }
             std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > ret() {
-                if( bestVal == NULL ) {
+                if( !bestVal ) {
                     return null();
                 }
                 std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > vRet = 
                     std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > (*bestVal, *bestIndices );
-                delete bestVal; bestVal = NULL;
-                delete bestIndices; bestIndices = NULL;
                 return vRet;
             }            
         };
         template<typename Precision, typename ComparisonFunctor>
         class accumulate_horizontal_functor {
-            Vector<Dynamic,Precision>* bestVal;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestVal;
         public: 
             accumulate_horizontal_functor() {
-                bestVal = NULL;
             }
             accumulate_horizontal_functor( int nNumRows ) {
-                bestVal = new Vector<Dynamic,Precision>( nNumRows );
+                bestVal.reset(new Vector<Dynamic,Precision>( nNumRows ));
             }
             Vector<Dynamic,Precision> null() {
                 return Vector<Dynamic,Precision>( 0 );
@@ -685,26 +679,23 @@ namespace TooN {
                 }
             }
             Vector<Dynamic,Precision> ret() { 
-                if( bestVal == NULL ) {
+                if( !bestVal ) {
                     return null();
                 }
                 Vector<Dynamic,Precision> vRet = *bestVal;
-                delete bestVal; bestVal = NULL;
                 return vRet; 
             }            
         };
         template<typename Precision, typename ComparisonFunctor>
         class accumulate_element_horizontal_functor {
-            Vector<Dynamic,Precision>* bestVal;
-            Vector<Dynamic,Precision>* bestIndices;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestVal;
+            std::unique_ptr<Vector<Dynamic,Precision> > bestIndices;
         public:
             accumulate_element_horizontal_functor() {
-                bestVal = NULL;
-                bestIndices = NULL;
             }
             accumulate_element_horizontal_functor( int nNumRows ) {
-                bestVal = new Vector<Dynamic,Precision>( nNumRows );
-                bestIndices = new Vector<Dynamic,Precision>( nNumRows );
+                bestVal.reset(new Vector<Dynamic,Precision>( nNumRows ));
+                bestIndices.reset(new Vector<Dynamic,Precision>( nNumRows ));
             }
             std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > null() {
                 Vector<Dynamic,Precision> vEmpty( 0 );
@@ -721,13 +712,11 @@ namespace TooN {
                 }
             }
             std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > ret() {
-                if( bestVal == NULL ) {
+                if( !bestVal ) {
                     return null();
                 }
                 std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> > vRet = 
                     std::pair<Vector<Dynamic,Precision>,Vector<Dynamic,Precision> >( *bestVal, *bestIndices );
-                delete bestVal; bestVal = NULL;
-                delete bestIndices; bestIndices = NULL;
                 return vRet;
             }            
         };
-- 
2.43.0


From 6ad0933eeea1a0b7c3daf431d363765136fe0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 03/61] fix: release the storage of a copy when copying an
 element throws

---
 TooN/internal/allocator.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..8c5abc6 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -95,8 +95,9 @@ template<int Size, class Precision> class StackOrHeap<Size, Precision, 1>
 
 		Precision *my_data;
 
+		// delegation: the memory is released if copying an element throws
 		StackOrHeap(const StackOrHeap& from)
-		:my_data(new Precision[Size])
+		:StackOrHeap()
 		{
 			for(int i=0; i < Size; i++)
 				my_data[i] = from.my_data[i];
@@ -189,8 +190,9 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 		std::copy(i.begin(), i.end(), my_data);
 	}
 
+	// delegation: the memory is released if copying an element throws
 	VectorAlloc(const VectorAlloc& v)
-	:my_data(new Precision[v.my_size]), my_size(v.my_size)
+	:VectorAlloc(v.my_size)
 	{ 
 		for(int i=0; i < my_size; i++)
 			my_data[i] = v.my_data[i];
@@ -593,10 +595,9 @@ template<int R, int C, class Precision> struct MatrixAlloc<R, C, Precision, fals
 	using ColSizeHolder<C>::num_cols;
 	
 	// copy constructor so guaranteed contiguous
+	// delegation: the memory is released if copying an element throws
 	MatrixAlloc(const MatrixAlloc& m)
-		:RowSizeHolder<R>(m.num_rows()),
-		 ColSizeHolder<C>(m.num_cols()),
-		 my_data(new Precision[num_rows()*num_cols()]) {
+		:MatrixAlloc(m.num_rows(), m.num_cols()) {
 		const int size=num_rows()*num_cols();
 		for(int i=0; i < size; i++) {
 			my_data[i] = m.my_data[i];
-- 
2.43.0


From a4856eff537594eb56ec6103d0af10db5c9467e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 04/61] fix: keep the elements of a resizable vector which is
 assigned without changing size

---
 TooN/internal/allocator.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 8c5abc6..3afab0d 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -350,6 +350,10 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
+			//Elements of a vector which keeps its size are not new, and may be
+			//what is being assigned (v = v, or v = a + v).
+			if(newsize == size())
+				return;
 			numbers.resize(newsize);
 			debug_initialize(data(), newsize);
 		}
-- 
2.43.0


From 0f1adeed4e6e9d7a07978a5a4a26e222d0be1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 05/61] fix: slices, rows, columns and diagonals of a resizable
 vector have its size

---
 TooN/internal/vbase.hh | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..d6db0b5 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -208,38 +208,42 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+
+	//A slice is not resizable: it has the size which the vector has now.
+	static const int SliceSize = (Size == Resizable)?Dynamic:Size;
+
+	const Matrix<1, SliceSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, SliceSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, SliceSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, SliceSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<SliceSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<SliceSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<SliceSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<SliceSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<SliceSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<SliceSize, Precision, SliceBase> as_slice(){                 
+		return Vector<SliceSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<SliceSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<SliceSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<SliceSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<SliceSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<SliceSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<SliceSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 581077427ff2c38a2a4b435c2c17dbadc5b3ec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 06/61] fix: reject slices whose start and length overflow when
 added

---
 TooN/internal/slice_error.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..254e13c 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,11 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Note that start + length may overflow
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Start>::n(start) > N<Size>::n(size) || 
+			   N<Length>::n(length) > N<Size>::n(size) - N<Start>::n(start))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 256d19d841a4918753e9dead481cb280d6035059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 07/61] fix: Data fills matrices with a run-time size

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From 78ec11a34574d1d1f31e9f35f9b9ed09678010b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 08/61] fix: Fill accepts vectors with one element and matrices
 with one column

---
 TooN/internal/comma.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..0b0ced9 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
@@ -133,7 +133,11 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			//The next element is on the next row if there is only one column
+			if(m.num_cols() == 1)
+				return MatrixFiller<1, R, C, P, B>(m, 0, 1, 0);
+			else
+				return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
 
-- 
2.43.0


From 3ecc269e84f12e03c5865cd8459d8e9ccf18f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 09/61] fix: WLS rejects a measurement whose Jacobian has the
 wrong size

---
 TooN/wls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..0498c7a 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,7 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 679193ef0e1c3f38f2d3b58ae9282501286ba165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 10/61] fix: gaussian_elimination with a vector rejects
 operands of different sizes

---
 TooN/gaussian_elimination.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..617d1c2 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -43,6 +43,8 @@ namespace TooN {
 	inline Vector<N, Precision> gaussian_elimination (Matrix<N,N,Precision> A, Vector<N, Precision> b) {
 		using std::swap;
 		using std::abs;
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
 
 		int size=b.size();
 
-- 
2.43.0


From 6d7c1c6c68c19e603822f21b6ea190c9eab2a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 11/61] fix: let an exception pass through a statement which
 fills a vector or matrix

---
 TooN/TooN.h            |  1 +
 TooN/internal/comma.hh | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/TooN/TooN.h b/TooN/TooN.h
index 17bd7b9..1f249e9 100644
--- a/TooN/TooN.h
+++ b/TooN/TooN.h
@@ -31,6 +31,7 @@
 #define TOON_INCLUDE_TOON_H
 #include <iostream>
 #include <cstdlib>
+#include <exception>
 #include <limits>
 #include <new>
 #include <utility>
diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index 0b0ced9..138b0a1 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -29,6 +29,19 @@ namespace TooN{
 
 namespace Internal
 {
+	///@internal
+	///@brief Is an exception passing through the statement which does the filling?
+	///If so, then the object is unfinished but not underfilled.
+	///@ingroup gInternal
+	inline bool filling_interrupted()
+	{
+		#if __cplusplus >= 201703L
+			return std::uncaught_exceptions() > 0;
+		#else
+			return std::uncaught_exception();
+		#endif
+	}
+
 	template<int N, int Size, class P, class B> struct VectorFiller
 	{
 		Vector<Size, P, B>& v;
@@ -50,7 +63,7 @@ namespace Internal
 		~VectorFiller()
 		{
 			#ifndef TOON_NDEBUG_FILL
-				if(underfill)
+				if(underfill && !filling_interrupted())
 				{
 					#ifdef TOON_TEST_INTERNALS
 						throw Internal::Underfill();
@@ -108,7 +121,7 @@ namespace Internal
 		~MatrixFiller()
 		{
 			#ifndef TOON_NDEBUG_FILL
-				if(underfill)
+				if(underfill && !filling_interrupted())
 				{
 					#ifdef TOON_TEST_INTERNALS
 						throw Internal::Underfill();
-- 
2.43.0


From d4103505bdba2ad19622570ec6dd2385f3de7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 12/61] fix: IRLS of a precision other than double uses its own
 base class

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..08d699a 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,7 +122,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			Vector<Size,Precision> scaledm(m*ts);
 
@@ -131,7 +131,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From c7e824ef24b1e8bef2e61f5895833fd55e7129e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 13/61] fix: IRLS::add_mJ accumulates the true inverse
 covariance from the Jacobian

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 08d699a..4ca35ef 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -124,9 +124,9 @@ namespace TooN {
 
 			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
+			Vector<Size,Precision> scaledJ(J*ts);
 
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += J.as_col() * scaledJ.as_row();
 
 		}
 
-- 
2.43.0


From 806d2e928f66ef4d4a11def93251bd84a519c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 14/61] fix: RobustII::true_scale returns w(x) + xw'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 4ca35ef..ec3a2c3 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From 2afe1097ebb943133f9b2a399c5e0354c95907a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 15/61] fix: IRLS::operator+= merges the residuals

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index ec3a2c3..50c441e 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -132,6 +132,7 @@ namespace TooN {
 
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
+			my_residual += meas.my_residual;
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From 2958ca649f4f467c04358748d4057ef5105f1102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 16/61] fix: Cholesky of a semidefinite matrix continues past a
 zero pivot

---
 TooN/Cholesky.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/TooN/Cholesky.h b/TooN/Cholesky.h
index 4d8b449..d5db6a6 100644
--- a/TooN/Cholesky.h
+++ b/TooN/Cholesky.h
@@ -94,6 +94,7 @@ public:
 	private:
 	void do_compute() {
 		int size=my_cholesky.num_rows();
+		my_rank = 0;
 		for(int col=0; col<size; col++){
 			Precision inv_diag = 1;
 			for(int row=col; row < size; row++){
@@ -107,9 +108,13 @@ public:
 					// this is the diagonal element so don't divide
 					my_cholesky(row,col)=val;
 					if(val == 0){
-						my_rank = row;
-						return;
+						// the rest of the column of a semidefinite matrix
+						// is zero as well: go on with the next one
+						for(int i=col+1; i<size; i++)
+							my_cholesky(i,col)=my_cholesky(col,i)=0;
+						break;
 					}
+					my_rank++;
 					inv_diag=1/val;
 				} else {
 					// cache the value without division in the upper half
@@ -119,7 +124,6 @@ public:
 				}
 			}
 		}
-		my_rank = size;
 	}
 
 	public:
-- 
2.43.0


From 3603d8e1dd0ab83f2870dfa584cfa2b8de58bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 17/61] fix: LU::backsub compiles for single precision

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..e14a1cf 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From da425c3682b96a4e8952ab8f950a0a6074156516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 18/61] fix: LU::backsub permutes the rows of a matrix with a
 run-time number of columns

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index e14a1cf..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 281d4e45bee4c4af1f5aa7c708ba6b314b037b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 19/61] fix: GR_SVD of single precision can be used to solve

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..7d6e197 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N,Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From 296193be334832c06ac3a37d50f99c313f5f9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 20/61] fix: SVD::rank counts the singular values that are not
 negligible

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..c104254 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -222,8 +222,8 @@ public:
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
 		int result=1;
-		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+		for(int i=1; i<min_dim(); i++){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From c3372a9364b8d5b11a7d3899bff2de5d17dce232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 21/61] fix: QR of a matrix with a column that needs no or
 little elimination

---
 TooN/QR.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..fbde072 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -133,6 +133,7 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 			for(int n=0; n < square_size()-1; n++)	
 			{
 				using std::sqrt;
+				using std::abs;
 
 				int sz = square_size() - n;
 				int nc = m.num_cols() - n;
@@ -153,9 +154,24 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
-				Precision  nx2 = norm_sq(s.T()[0]);
+				//Only the direction of u matters, so it is scaled by the largest
+				//element below the diagonal to avoid underflow.
+				Precision x0 = s[0][0];
+				Precision scale = norm_inf(s.T()[0].slice(1, sz-1));
 
-				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
+				//Nothing to eliminate: the reflection would be undefined.
+				if(scale == 0)
+					continue;
+
+				s.T()[0].slice(1, sz-1) /= scale;
+				Precision tail2 = norm_sq(s.T()[0].slice(1, sz-1));
+
+				Precision a;
+				if(abs(x0) > scale)
+					a = abs(x0) * sqrt(1 + tail2 * (scale/x0) * (scale/x0));
+				else
+					a = scale * sqrt(tail2 + (x0/scale) * (x0/scale));
+				a *= x0 < 0?-1:1;
 
 				//We now want the vector u = x - ae
 				//
@@ -163,11 +179,12 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
 				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//(this is x_0 - a, without the cancellation)
+				s[0][0] = -tail2 * (scale / (x0 + a));
 				//auto& u = x;
 
-				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-				Precision H = -a * s.T()[0][0];
+				//We want H = norm_sq(u)/2
+				Precision H = (s[0][0]*s[0][0] + tail2) / 2;
 
 
 				//Note that we're working on a reduced sized matrix here.
-- 
2.43.0


From aa13c174ad224818338fbd08a9626586aefb2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 22/61] fix: SymEigen<3> normalises the eigenvectors that it
 takes the cross product of

---
 TooN/SymEigen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..e8de32a 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -296,7 +296,7 @@ namespace Internal{
 				//This is blessedly rare
 		
 				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
+				int is[] = {0, 1, 2};
 				
 				//Sort them
 				if(ns[0] > ns[1])
@@ -319,8 +319,8 @@ namespace Internal{
 				if(ns[1] >= eps)
 				{
 					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
+					normalize(eig[is[1]]);
+					normalize(eig[is[2]]);
 					eig[is[0]] = eig[is[1]]^eig[is[2]];
 				}
 				else if(ns[2] >= eps)
-- 
2.43.0


From 9d9c72c20df470db24b9ef045ac726730c0fbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 23/61] fix: SymEigen<3> of the zero matrix sets the
 eigenvalues

---
 TooN/SymEigen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index e8de32a..97e5b39 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -157,6 +157,7 @@ namespace Internal{
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = TooN::Zeros;
 				return;
 			}
 
-- 
2.43.0


From faddb49a7d39777b557108fe9bf11a725ceca708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 24/61] fix: SymEigen<3> of matrices with close or repeated
 eigenvalues

---
 TooN/SymEigen.h | 261 ++++++++++++------------------------------------
 1 file changed, 65 insertions(+), 196 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 97e5b39..bf71b97 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -146,206 +146,75 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
-            //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
-            using std::sqrt;
-            using std::min;
-            using std::swap;
-            
-			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
-
-			if(a_norm == 0)
-			{
-				eig = TooN::Identity;
-				ev = TooN::Zeros;
-				return;
-			}
-
-            //Polynomial terms of |a - l * Identity|
-            //l^3 + a*l^2 + b*l + c
-
-            const double& a11 = m[0][0];
-            const double& a12 = m[0][1];
-            const double& a13 = m[0][2];
-
-            const double& a22 = m[1][1];
-            const double& a23 = m[1][2];
-
-            const double& a33 = m[2][2];
-
-            //From matlab:
-            double a = -a11-a22-a33;
-            double b = a11*a22+a11*a33+a22*a33-a12*a12-a13*a13-a23*a23;
-            double c = a11*(a23*a23)+(a13*a13)*a22+(a12*a12)*a33-a12*a13*a23*2.0-a11*a22*a33;
-
-            //Using Cardano's method:
-            double p = b - a*a/3;
-            double q = c + (2*a*a*a - 9*a*b)/27;
-
-            double alpha = -q/2;
-
-            //beta_descriminant <= 0 for real roots!
-			//force to zero to avoid nasty rounding issues.
-            double beta_descriminant = std::min(0.0, q*q/4 + p*p*p/27);
-
-            double beta = sqrt(-beta_descriminant);
-            double r2 = alpha*alpha  - beta_descriminant;
-
-            ///Need A,B = cubert(alpha +- beta)
-            ///Turn in to r, theta
-            /// r^(1/3) * e^(i * theta/3)
-            double cuberoot_r = pow(r2, 1./6);
-
-            double theta3 = atan2(beta, alpha)/3;
-
-            double A_plus_B = 2*cuberoot_r*cos(theta3);
-            double A_minus_B = -2*cuberoot_r*sin(theta3);
-
-            //calculate eigenvalues
-            ev =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
-
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-            if(ev[1] > ev[2])
-                swap(ev[1], ev[2]);
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-
-			// for the vector [x y z]
-			// eliminate to compute the ratios x/z and y/z
-			// in both cases, the denominator is the same, so in the absence of
-			// any other scaling, choose the denominator to be z and 
-			// tne numerators to be x and y.
-			//
-			// x/z and y/z,  implies ax, ay, az which vanishes
-			// if a=0
-            //calculate the eigenvectors
-            eig[0][0]=a12 * a23 - a13 * (a22 - ev[0]);
-            eig[0][1]=a12 * a13 - a23 * (a11 - ev[0]);
-            eig[0][2]=(a11-ev[0])*(a22-ev[0]) - a12*a12;
-            eig[1][0]=a12 * a23 - a13 * (a22 - ev[1]);
-            eig[1][1]=a12 * a13 - a23 * (a11 - ev[1]);
-            eig[1][2]=(a11-ev[1])*(a22-ev[1]) - a12*a12;
-            eig[2][0]=a12 * a23 - a13 * (a22 - ev[2]);
-            eig[2][1]=a12 * a13 - a23 * (a11 - ev[2]);
-            eig[2][2]=(a11-ev[2])*(a22-ev[2]) - a12*a12;
-			
-			//Check to see if we have any zero vectors
-			double e0norm = norm_1(eig[0]);
-			double e1norm = norm_1(eig[1]);
-			double e2norm = norm_1(eig[2]);
-
-			//Some of the vectors vanish: we're computing
-			// x/z and y/z, which implies ax, ay, az which vanishes
-			// if a=0;
-			//
-			// So compute the other two choices.
-			if(e0norm < eps)
-			{
-				eig[0][0] += a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][1] += (ev[0]-a11)*(ev[0]-a33) - a13*a13;
-				eig[0][2] += a23 * (ev[0] - a11) + a12 * a13;
-				e0norm = norm_1(eig[0]);
-			}
-
-			if(e1norm < eps)
-			{
-				eig[1][0] += a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][1] += (ev[1]-a11)*(ev[1]-a33) - a13*a13;
-				eig[1][2] += a23 * (ev[1] - a11) + a12 * a13;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] += a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][1] += (ev[2]-a11)*(ev[2]-a33) - a13*a13;
-				eig[2][2] += a23 * (ev[2] - a11) + a12 * a13;
-				e2norm = norm_1(eig[2]);
-			}
-
-
-			//OK, a AND b might be 0
-			//Check for vanishing and add in y/x, z/x which implies cx, cy, cz
-			if(e0norm < eps)
-			{
-				eig[0][0] +=(ev[0]-a22)*(ev[0]-a33) - a23*a23;
-				eig[0][1] +=a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][2] +=a13 * (ev[0] - a22) + a23 * a12;
-				e0norm = norm_1(eig[0]);
-			}
+			//The method of Jacobi: rotations which make the off diagonal elements
+			//zero, one at a time. Unlike the roots of the characteristic polynomial,
+			//this remains accurate when eigenvalues are close or repeated.
+			using std::sqrt;
+			using std::abs;
+			using std::swap;
 
-			if(e1norm < eps)
+			//Only use the upper triangular elements.
+			double a[3][3] = {
+				{m[0][0], m[0][1], m[0][2]},
+				{m[0][1], m[1][1], m[1][2]},
+				{m[0][2], m[1][2], m[2][2]}};
+
+			//Row i of v is the eigenvector of a[i][i]
+			double v[3][3] = {{1,0,0}, {0,1,0}, {0,0,1}};
+
+			//Convergence is quadratic, so very few sweeps are needed.
+			for(int sweep=0; sweep < 50 && (a[0][1] != 0 || a[0][2] != 0 || a[1][2] != 0); sweep++)
+				for(int p=0; p < 2; p++)
+					for(int q=p+1; q < 3; q++)
+					{
+						//Elements below working precision are zero
+						if(abs(a[p][p]) + abs(a[p][q]) == abs(a[p][p]) && abs(a[q][q]) + abs(a[p][q]) == abs(a[q][q]))
+							a[p][q] = a[q][p] = 0;
+
+						if(a[p][q] == 0)
+							continue;
+
+						double theta = (a[q][q] - a[p][p]) / (2 * a[p][q]);
+						double t = (theta < 0 ? -1 : 1) / (abs(theta) + sqrt(1 + theta*theta));
+						double c = 1 / sqrt(1 + t*t);
+						double s = c * t;
+
+						const int r = 3 - p - q;
+						double arp = a[r][p], arq = a[r][q];
+
+						a[p][p] -= t * a[p][q];
+						a[q][q] += t * a[p][q];
+						a[p][q] = a[q][p] = 0;
+						a[r][p] = a[p][r] = c * arp - s * arq;
+						a[r][q] = a[q][r] = s * arp + c * arq;
+
+						for(int i=0; i < 3; i++)
+						{
+							double vp = v[p][i], vq = v[q][i];
+							v[p][i] = c * vp - s * vq;
+							v[q][i] = s * vp + c * vq;
+						}
+					}
+
+			//Sort the eigenvalues in to ascending order
+			int order[3] = {0, 1, 2};
+			if(a[order[0]][order[0]] > a[order[1]][order[1]])
+				swap(order[0], order[1]);
+			if(a[order[1]][order[1]] > a[order[2]][order[2]])
+				swap(order[1], order[2]);
+			if(a[order[0]][order[0]] > a[order[1]][order[1]])
+				swap(order[0], order[1]);
+
+			for(int i=0; i < 3; i++)
 			{
-				eig[1][0] +=(ev[1]-a22)*(ev[1]-a33) - a23*a23;
-				eig[1][1] +=a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][2] +=a13 * (ev[1] - a22) + a23 * a12;
-				e1norm = norm_1(eig[1]);
-			}
+				ev[i] = a[order[i]][order[i]];
 
-			if(e2norm < eps)
-			{
-				eig[2][0] +=(ev[2]-a22)*(ev[2]-a33) - a23*a23;
-				eig[2][1] +=a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][2] +=a13 * (ev[2] - a22) + a23 * a12;
-				e2norm = norm_1(eig[2]);
-			}
+				//The sign is that of the cofactors of the last row of m - ev[i] * Identity
+				double cofactor = (m[0][0]-ev[i])*(m[1][1]-ev[i]) - m[0][1]*m[0][1];
+				double sign = cofactor * v[order[i]][2] < 0 ? -1 : 1;
 
-			//Oh, COME ON!!!
-			if(e0norm < eps || e1norm < eps || e2norm < eps)
-			{
-				//This is blessedly rare
-		
-				double ns[] = {e0norm, e1norm, e2norm};
-				int is[] = {0, 1, 2};
-				
-				//Sort them
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-				if(ns[1] > ns[2])
-				{
-					swap(ns[1], ns[2]);
-					swap(is[1], is[2]);
-				}
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-
-
-				if(ns[1] >= eps)
-				{
-					//one small one. Use the cross product of the other two
-					normalize(eig[is[1]]);
-					normalize(eig[is[2]]);
-					eig[is[0]] = eig[is[1]]^eig[is[2]];
-				}
-				else if(ns[2] >= eps)
-				{
-					normalize(eig[is[2]]);
-					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
-
-					//Gram-Schmit
-					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-					Vector<3> v2 = v1^eig[is[2]];
-
-					eig[is[0]] = v1;
-					eig[is[1]] = v2;
-				}
-				else
-					eig = TooN::Identity;
-			}
-			else
-			{
-  				normalize(eig[0]);
-  				normalize(eig[1]);
-  				normalize(eig[2]);
+				for(int j=0; j < 3; j++)
+					eig[i][j] = sign * v[order[i]][j];
 			}
 		}
 	};
-- 
2.43.0


From 26f080407012eaa0a17a0b13eb6f08785e4e6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 25/61] fix: brent_line_search and golden_section_search with
 the default tolerance did not compile

---
 TooN/optimization/brent.h          | 2 +-
 TooN/optimization/golden_section.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..db62ed7 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,11 +48,11 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
 		//The golden ratio:
-		const Precision g = (3.0 - sqrt(5))/2;
+		const Precision g = (3.0 - std::sqrt(5.0))/2;
 
 		Precision x1, x2, fx1, fx2;
 
@@ -127,7 +127,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From 6ea21164162a79068e91d52f9905f74f4827c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 26/61] fix: golden_section_search stops after the maximum
 number of iterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index db62ed7..4c013bd 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -82,6 +82,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From 4260c49c495907785bca206f9d90724a2d2a2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 27/61] fix: ConjugateGradient with a precision other than
 double did not compile

---
 TooN/optimization/conjugate_gradient.h | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..a4a20d6 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -167,7 +167,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -225,13 +225,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -252,7 +252,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -263,7 +263,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -274,7 +274,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -327,13 +327,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -386,7 +386,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From 7c42689a6e899577c289c87d8d23ea6e1ae0dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 28/61] fix: ConjugateGradient line search next to invalid
 regions and on plateaus

---
 TooN/optimization/conjugate_gradient.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index a4a20d6..f5208ea 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -110,7 +110,7 @@ namespace TooN{
 				if(std::isnan(c_val))
 					break;
 				last_good_lambda = lambda;
-				if(c_val > 	b_val) // we have a bracket
+				if(c_val >= b_val) // we have a bracket
 					break;
 				else
 				{
@@ -159,7 +159,7 @@ namespace TooN{
 					break;
 				else if(lambda < zeps)
 					return Zeros;
-				else //Contract the bracket
+				else if(!std::isnan(b_val)) //Contract the bracket
 				{
 					c = b;
 					c_val = b_val;
@@ -345,7 +345,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val < b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
@@ -356,7 +356,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val > b_val && b_val <= c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From 73e68892f9efd40182095885710f3f4c292786ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 29/61] fix: DownhillSimplex keeps values and vertices together
 when the function throws

---
 TooN/optimization/downhill_simplex.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..e0942af 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -288,8 +288,10 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			for(int i=0; i < simplex.num_rows(); i++)
 				if(i != best)
 				{
-					simplex[i] = simplex[best] + sigma * (simplex[i] - simplex[best]);
-					values[i] = func(simplex[i]);
+					//The vertex only moves once its value is known, in case func throws.
+					Vector<N> xs = simplex[best] + sigma * (simplex[i] - simplex[best]);
+					values[i] = func(xs);
+					simplex[i] = xs;
 				}
 		}
 
-- 
2.43.0


From 8c1ec83320893fc4b0d4ed1c94f4e049df2d422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 30/61] fix: numerical_hessian computes all cross derivatives
 about the point given

---
 TooN/functions/derivatives.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..3413110 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,10 @@ namespace TooN{
 				x[j] = v[j] - h;
 				double d = f(x);
 
+				//The next pair of axes starts from v again
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From a17c1fb28932d7fd9e67ef4121d69458646b783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 31/61] fix: scalar * Matrix of another type converted the
 elements to the scalar's type

2*m for an integer 2 truncated every element of m to an integer.
---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..7479bd0 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From 8d0d4eaab8aa1d9b5775981f2fc7c64cd6d3ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 32/61] fix: SIM3 and SIM2 exp and ln near the identity: 1/2
 and 1/6 were integer divisions

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 36a27ab..e0b1c76 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -438,8 +438,8 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 
 	if(fabs(s) < eps && fabs(t) < eps){
 		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
+		coeff[1] = 1./2 + s/3 - t*t/24 + s*s/8;
+		coeff[2] = 1./6 + s/8 - t*t/120 + s*s/20;
 	} else if(fabs(s) < eps) {
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-- 
2.43.0


From 209132cafccc7e930b2063a6127b35d45ad959f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 33/61] fix: SIM2 exp and ln are those of the Lie algebra

---
 TooN/sim2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 5db1379..350e8ad 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -349,7 +349,8 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// applying cross twice is multiplication with -theta^2 in the plane
+	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -370,7 +371,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - theta*theta*coeff[2]) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 0928d00f59a8440e6db7a3415b29481bbdda638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 34/61] fix: SIM3 and SIM2 adjoint account for the scale and
 set every element

---
 TooN/sim2.h | 7 ++++---
 TooN/sim3.h | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 350e8ad..2d80eb1 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,9 +132,10 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-		result[0] += vect[2] * get_translation()[1];
-		result[1] -= vect[2] * get_translation()[0];
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * (get_scale() * vect.template slice<0,2>());
+		result[0] += vect[2] * get_translation()[1] - vect[3] * get_translation()[0];
+		result[1] -= vect[2] * get_translation()[0] + vect[3] * get_translation()[1];
 		return result;
 	}
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index e0b1c76..81eaee5 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -195,8 +195,10 @@ inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (get_scale() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= TooN::operator*(vect[6], get_translation());
+	result[6] = vect[6];
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = (get_rotation() * vect.template slice<0,3>()) / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From d8cad1c3b1ec97d1e8dec559fc00781d76285826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 35/61] fix: SIM3 with a precision other than double did not
 compile

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 81eaee5..3688b27 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -480,7 +480,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 28e1b2140e7ca70dd1339f5971a6401efa8f23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 36/61] fix: SE3 and SE2 exp of small rotations dropped the
 second order term

---
 TooN/se2.h | 2 +-
 TooN/se3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 8369fb7..0280765 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -330,7 +330,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
-		result.get_translation() = mu.template slice<0,2>() + 0.5 * cross;
+		result.get_translation() = (1.0 - theta_sq * one_6th) * mu.template slice<0,2>() + 0.5 * cross;
 	} else {
 		Precision A, B;
 		if (theta_sq < 1e-6) {
diff --git a/TooN/se3.h b/TooN/se3.h
index c48f3de..5e451ca 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -412,7 +412,7 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 	if (theta_sq < 1e-8) {
 		A = 1.0 - one_6th * theta_sq;
 		B = 0.5;
-		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross;
+		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross + one_6th * (w ^ cross);
 	} else {
 		Precision C;
 		if (theta_sq < 1e-6) {
-- 
2.43.0


From 2ce1c57eebb5bd6017aaeb15a3df1ea7542cb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 37/61] fix: SL ln for 4 or more dimensions

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index a46e533..81e61c5 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 8e6273ed82888af2ca8e974680fb08c36d1c9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 38/61] fix: SL of a matrix with negative determinant, in odd
 dimensions, was NaN

---
 TooN/sl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 81e61c5..412ed20 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -109,7 +109,9 @@ private:
 		Precision det = determinant(my_matrix);
 		assert(abs(det) > 0);
         using std::pow;
-		my_matrix /= pow(det, 1.0/N);
+		// in odd dimensions, the root of a negative determinant is negative
+		const bool negative = N % 2 == 1 && det < 0;
+		my_matrix /= negative ? -pow(-det, Precision(1.0/N)) : pow(det, Precision(1.0/N));
 	}
 
 	/// these constants indicate which parts of the parameter vector 
-- 
2.43.0


From 8e39b4d0d45e1a1101abe2943fb4dc882ccbd248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 39/61] fix: SO3 taking a vector to a nearly parallel one was
 not a rotation

---
 TooN/so3.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 4f9c3f9..89bda71 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,7 +78,10 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
+		const Vector<3, Precision> ua = unit(a), ub = unit(b);
 		Vector<3, Precision> n = a ^ b;
+		if(norm_sq(n) == 0)
+			n = ua ^ ub;	//in case of underflow
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
@@ -86,12 +89,25 @@ public:
 			my_matrix = Identity;
 			return;
 		}
+		if(ua*ub > 0) {
+			//Two reflections: in contrast to n, this is accurate for nearly parallel vectors.
+			const Vector<3, Precision> h = unit(ua + ub);
+			const Matrix<3, 3, Precision> M1 = 2 * h.as_col() * h.as_row() - Identity * Precision(1);
+			const Matrix<3, 3, Precision> M2 = 2 * ua.as_col() * ua.as_row() - Identity * Precision(1);
+			my_matrix = M1 * M2;
+			return;
+		}
+		//n is inaccurate if the vectors are nearly opposite. Make sure that it is orthogonal to them.
+		n = unit(n);
+		n -= ua * (ua * n);
+		n = unit(n);
+		n -= ua * (ua * n);
 		n = unit(n);
-		Matrix<3> R1;
-		R1.T()[0] = unit(a);
+		Matrix<3, 3, Precision> R1;
+		R1.T()[0] = ua;
 		R1.T()[1] = n;
 		R1.T()[2] = R1.T()[0] ^ n;
-		my_matrix.T()[0] = unit(b);
+		my_matrix.T()[0] = ub;
 		my_matrix.T()[1] = n;
 		my_matrix.T()[2] = my_matrix.T()[0] ^ n;
 		my_matrix = my_matrix * R1.T();
-- 
2.43.0


From e995c62933bd8b8f8a4402bd5a581abdd6d8aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 40/61] fix: SE2 and SIM2 adjoint of a matrix did not compile

---
 TooN/se2.h  | 5 +++--
 TooN/sim2.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 0280765..d5968b1 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<S,P2, Accessor> & vect) const {
+		SizeMismatch<3,S>::test(3, vect.size());
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
diff --git a/TooN/sim2.h b/TooN/sim2.h
index 2d80eb1..28727e7 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<S,P2, Accessor> & vect) const {
+		SizeMismatch<4,S>::test(4, vect.size());
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result[3] = vect[3];
-- 
2.43.0


From df4cb9aae9fb33686eb2d9f52f6fa08225523147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:58 +0000
Subject: [PATCH 41/61] fix: SIM3 and SIM2 exp of a vector of another precision
 did not compile

---
 TooN/sim2.h | 2 +-
 TooN/sim3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 28727e7..3c6cc93 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -349,7 +349,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_scale() = exp(mu[3]);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	// applying cross twice is multiplication with -theta^2 in the plane
 	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 3688b27..1beb446 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -483,7 +483,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[6],t); 
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
 	result.get_translation() = coeff[0] * mu.template slice<0,3>() + TooN::operator*(coeff[1], cross) + TooN::operator*(coeff[2], (w ^ cross));
 
-- 
2.43.0


From b105c1ed7dd697ae5081b185d93186d452ef72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 42/61] fix: unproject of a matrix with a dynamic number of
 columns did not compile

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index bed086b..9192627 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -222,8 +222,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result(R+1, m.num_cols());
+        result.slice(0,0,R,m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From ab4c12dfefa9e04a58f5d9833f0234652771688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 43/61] fix: SL inverse with a precision other than double did
 not compile

---
 TooN/sl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 412ed20..98aae93 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
@@ -141,7 +141,7 @@ inline SL<N, Precision> SL<N, Precision>::exp( const Vector<S,P,B> & v){
 
 template <int N, typename Precision>
 inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
-	const Matrix<N> l = TooN::log(my_matrix);
+	const Matrix<N,N,Precision> l = TooN::log(my_matrix);
 	Vector<SL<N,Precision>::dim, Precision> v;
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
-- 
2.43.0


From e6ccc8dc053ff38c45199798ffeb562a18060fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 44/61] fix: vector - Ones and matrix - Identity did not
 compile

---
 TooN/internal/objects.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..c15f196 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -322,10 +322,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Pr>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Pr>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +509,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From bf9efcb1892ff9b8800a8b92b2032dbec33a75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 45/61] fix: matrix of integers + Identity * fraction lost the
 fraction

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index c15f196..3454ce3 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += (P1)s;
 	}
 	///@}
 
-- 
2.43.0


From 0373e2da6ad4b4e175acad4a8d5651fc9329a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 46/61] fix: dividing a scaled Identity or Ones by a number
 rounded its reciprocal to an integer

---
 TooN/internal/objects.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 3454ce3..055ee86 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -274,6 +274,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	{
 		return Operator<Internal::Identity<Pout> >(val*m);
 	}
+	template<class Pout, class Pdiv> Operator<Internal::Identity<Pout> > divide_me(const Pdiv& d) const
+	{
+		return Operator<Internal::Identity<Pout> >(val/d);
+	}
 	///}
 	
 	///<Scale of the identity matrix.
@@ -372,6 +376,10 @@ template<class Precision> struct Operator<Internal::SizedIdentity<Precision> >
 	{
 		return Operator<Internal::SizedIdentity<Pout> >(my_size, val*m);
 	}
+	template<class Pout, class Pdiv> Operator<Internal::SizedIdentity<Pout> > divide_me(const Pdiv& d) const
+	{
+		return Operator<Internal::SizedIdentity<Pout> >(my_size, val/d);
+	}
 	///@}
 };
 ////////////////////////////////////////////////////////////////////////////////
@@ -593,6 +601,10 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	{
 		return Operator<Internal::Scalars<Pout> >(s*m);
 	}
+	template<class Pout, class Pdiv> Operator<Internal::Scalars<Pout> > divide_me(const Pdiv& d) const
+	{
+		return Operator<Internal::Scalars<Pout> >(s/d);
+	}
 	///@}
 };
 
@@ -628,6 +640,10 @@ template<class P> struct Operator<Internal::SizedScalars<P> >: public Operator<I
 	{
 		return Operator<Internal::SizedScalars<Pout> >(s*m, my_size);
 	}
+	template<class Pout, class Pdiv> Operator<Internal::SizedScalars<Pout> > divide_me(const Pdiv& d) const
+	{
+		return Operator<Internal::SizedScalars<Pout> >(s/d, my_size);
+	}
 	///@}
 
 private:
@@ -661,6 +677,10 @@ template<class P> struct Operator<Internal::RCScalars<P> >: public Operator<Inte
 	{
 		return Operator<Internal::RCScalars<Pout> >(s*m, my_rows, my_cols);
 	}
+	template<class Pout, class Pdiv> Operator<Internal::RCScalars<Pout> > divide_me(const Pdiv& d) const
+	{
+		return Operator<Internal::RCScalars<Pout> >(s/d, my_rows, my_cols);
+	}
 
 	///@}
 private:
@@ -692,7 +712,7 @@ template<template<class> class Op, class Pl, class Pr>
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template divide_me<typename Internal::DivideType<Pl, Pr>::type>(r); 
 }
 
 
-- 
2.43.0


From 9a3fd8c59f55ea213f739eade467b72a2894704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 47/61] fix: unary minus of a vector or matrix of complex
 numbers did not compile

---
 TooN/internal/operators.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 7479bd0..85df2df 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -184,7 +184,8 @@ struct Operator<Internal::VNegate<S, P, A> > {
 	template<int S0, typename P0, typename A0>
 	void eval(Vector<S0, P0, A0> & res) const
 	{
-		res = input * -1;
+		for(int i=0; i < res.size(); ++i)
+			res[i] = -input[i];
 	}
 	int size() const { return input.size(); }
 };
@@ -292,7 +293,9 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 	template<int R0, int C0, typename P0, typename A0>
 	void eval(Matrix<R0,C0,P0,A0> & res) const
 	{
-		res = input * -1;
+		for(int r=0; r < res.num_rows(); ++r)
+			for(int c=0; c < res.num_cols(); ++c)
+				res(r,c) = -input(r,c);
 	}
 	int num_rows() const { return input.num_rows(); }
 	int num_cols() const { return input.num_cols(); }
-- 
2.43.0


From 4116535ce7403498ec879d833e9d12b625724470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 48/61] fix: TOON_INITIALIZE_RANDOM wrote beyond the end of
 objects of size zero

---
 TooN/internal/debug.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b8350ea..08a4bc0 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -96,6 +96,10 @@ namespace Internal
 			datafail<P> d={0};
 			bytes+=d.i;
 			
+			//The loop below is entered in the middle
+			if(bytes == 0)
+				return;
+
 			switch(bytes & 0x3 )
 			{
 				for(i=0; i < bytes;)
-- 
2.43.0


From ac1c4fd40b10afb183fe4fac870ef7cb61fb759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 49/61] fix: documentation named a macro for named element
 vectors which does not exist

---
 doc/documentation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/documentation.h b/doc/documentation.h
index 95276b1..eb87c1c 100644
--- a/doc/documentation.h
+++ b/doc/documentation.h
@@ -157,7 +157,7 @@ This section is arranged as a FAQ. Most answers include code fragments. Assume
 		#include <TooN/TooN.h>
 		#include <TooN/named_elements.h>
 
-		TOON_DECLARE_NAMED_ELEMENT_VECTOR(CMYK, c, m, y, k);
+		TOON_MAKE_NAMED_ELEMENT_VECTOR(CMYK, c, m, y, k);
 
 		int main()
 		{
-- 
2.43.0


From 748d17d9d05192f6e4b4121ec6fa788e979eae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 50/61] fix: SO3 from two run-time sized vectors compiles

---
 TooN/so3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 89bda71..69bc610 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -79,7 +79,7 @@ public:
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
 		const Vector<3, Precision> ua = unit(a), ub = unit(b);
-		Vector<3, Precision> n = a ^ b;
+		Vector<3, Precision> n = Vector<3, P1>(a) ^ Vector<3, P2>(b);
 		if(norm_sq(n) == 0)
 			n = ua ^ ub;	//in case of underflow
 		if(norm_sq(n) == 0) {
-- 
2.43.0


From 26795f3c77d3f12a80dba6632d2828ac552a693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 51/61] fix: constant and complex vectors and matrices can be
 compared with Zeros

---
 TooN/internal/matrix.hh | 2 +-
 TooN/internal/objects.h | 8 ++++----
 TooN/internal/vector.hh | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/internal/matrix.hh b/TooN/internal/matrix.hh
index 92ae119..3fcc1d1 100644
--- a/TooN/internal/matrix.hh
+++ b/TooN/internal/matrix.hh
@@ -283,7 +283,7 @@ public:
 	}
 
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}
diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 055ee86..1488252 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -145,10 +145,10 @@ template<> struct Operator<Internal::Zero> {
 	///@}
 
 	template<int R, int C, class P, class B>
-	bool notequal(Matrix<R,C,P,B>& m) const {
+	bool notequal(const Matrix<R,C,P,B>& m) const {
 		for(int r=0; r<m.num_rows(); r++)
 			for(int c=0; c<m.num_cols(); c++)
-				if(m[r][c] != 0)
+				if(m[r][c] != P(0))
 					return 1;
 		
 		return 0;
@@ -156,9 +156,9 @@ template<> struct Operator<Internal::Zero> {
 
 
 	template<int S, class P, class B>
-	bool notequal(Vector<S,P,B>& v) const {
+	bool notequal(const Vector<S,P,B>& v) const {
 		for(int i=0; i<v.size(); i++)
-			if(v[i] != 0)
+			if(v[i] != P(0))
 				return 1;
 		return 0;
 	}
diff --git a/TooN/internal/vector.hh b/TooN/internal/vector.hh
index 1892831..1230f79 100644
--- a/TooN/internal/vector.hh
+++ b/TooN/internal/vector.hh
@@ -379,7 +379,7 @@ public:
 	
 	
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}		
-- 
2.43.0


From df93c8fa8dde7b464e7b6026afe7473ec9fd4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 52/61] fix: an empty resizable vector does not refer to its
 element 0

---
 TooN/internal/allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 3afab0d..3744cb8 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -316,11 +316,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 	protected:
 
 		Precision* data() {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 		const Precision* data()const  {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 	private:
-- 
2.43.0


From e6e6fa3e6518ad323acccab11af4fc7d047bf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:49 +0000
Subject: [PATCH 53/61] fix: exp of a matrix whose norm exceeds the range of
 int

---
 TooN/helpers.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 9192627..14a8d8d 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -329,11 +329,14 @@ namespace TooN {
 	/// @ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
-		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		const int s = l > 0 ? (int)ceil(l) : 0;
+		//an int does not hold the scale of a large matrix
+		P scale = 1;
+		for(int i = 0; i < s; ++i)
+			scale *= 2;
+		Matrix<R,C,P> result = Internal::exp_taylor(m/scale);
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From 1554cc346dacb7ec70ac5c0d6dee8df8d9aec732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 54/61] fix: gauss_jordan and gaussian_elimination keep the
 precision of their elements

---
 TooN/gauss_jordan.h         | 6 +++---
 TooN/gaussian_elimination.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/gauss_jordan.h b/TooN/gauss_jordan.h
index fb5fdb8..0e05d19 100644
--- a/TooN/gauss_jordan.h
+++ b/TooN/gauss_jordan.h
@@ -64,7 +64,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 		  using std::abs;
 			int pivotpos = col;
-			double pivotval = abs(m[pivotpos][col]);
+			auto pivotval = abs(m[pivotpos][col]);
 			for(int p=col+1; p <m.num_rows(); p++)
 			  if(abs(m[p][col]) > pivotval)
 				{
@@ -82,7 +82,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 			if(row != col)
 			{
-				double multiple = m[row][col] / m[col][col];
+				Precision multiple = m[row][col] / m[col][col];
 		
 				//We could eliminate some of the computations in the augmented
 				//matrix, if the augmented half is the identity. In general, it
@@ -102,7 +102,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 	//square matrix, since it is diagonal, and ends up as the identity.
 	for(int row=0;row < m.num_rows(); row++)
 	{
-		double mul = 1/m[row][row];
+		Precision mul = 1/m[row][row];
 
 		m[row][row] = 1;
 
diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 617d1c2..06d75cc 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -53,7 +53,7 @@ namespace TooN {
 			Precision maxval = abs(A[i][i]);
 			
 			for (int ii=i+1; ii<size; ++ii) {
-				double v =  abs(A[ii][i]);
+				Precision v =  abs(A[ii][i]);
 				if (v > maxval) {
 					maxval = v;
 					argmax = ii;
@@ -73,7 +73,7 @@ namespace TooN {
 			b[i] *= inv_pivot;
 			
 			for (int u=i+1; u<size; ++u) {
-				double factor = A[u][i];
+				Precision factor = A[u][i];
 				//A[u][i] = 0;
 				for (int j=i+1; j<size; ++j)
 					A[u][j] -= factor * A[i][j];
-- 
2.43.0


From 9bfa265d1558971d45ea666138991ba44cb12c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 55/61] fix: WLS keeps the precision of its elements

---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0498c7a..59c5fab 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -101,7 +101,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -159,7 +159,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From 99115a68a69791ce5ccd15a5ca27749d3723f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 56/61] fix: RobustIII keeps the precision of its elements

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 50c441e..a5c2a8f 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -86,7 +86,7 @@ namespace TooN {
 		/// Returns \f$w(x)\f$.
 		Precision reweight(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			Precision d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
 		///< Returns \f$\int xw(x)dx\f$.
-- 
2.43.0


From c6de5aa3c71140e1f85ca4ccca3d9c1a68c940b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 57/61] fix: SO3 from opposite vectors is rejected again, from
 a zero vector it is the identity

---
 TooN/so3.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 69bc610..002d053 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,17 +78,26 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		const Vector<3, Precision> ua = unit(a), ub = unit(b);
+		Vector<3, Precision> va = a, vb = b;
 		Vector<3, Precision> n = Vector<3, P1>(a) ^ Vector<3, P2>(b);
-		if(norm_sq(n) == 0)
-			n = ua ^ ub;	//in case of underflow
+		if(norm_sq(n) == 0) {
+			//In case of underflow. Proportional vectors are scaled to the same elements, so
+			//n remains exactly 0.
+			const Precision sa = norm_inf(va), sb = norm_inf(vb);
+			if(sa > 0 && sb > 0) {
+				va /= sa;
+				vb /= sb;
+				n = va ^ vb;
+			}
+		}
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
-			assert(a*b>=0);
+			assert(va*vb>=0);
 			my_matrix = Identity;
 			return;
 		}
+		const Vector<3, Precision> ua = unit(va), ub = unit(vb);
 		if(ua*ub > 0) {
 			//Two reflections: in contrast to n, this is accurate for nearly parallel vectors.
 			const Vector<3, Precision> h = unit(ua + ub);
-- 
2.43.0


From 5b6a21f360f8d8a54a3d51b02e8c6984f8f89d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:22 +0000
Subject: [PATCH 58/61] fix: exp of SO3 and the rotation between vectors have
 the precision of the group, not that of the vectors

---
 TooN/so3.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 002d053..df6ba50 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,8 +78,10 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		Vector<3, Precision> va = a, vb = b;
-		Vector<3, Precision> n = Vector<3, P1>(a) ^ Vector<3, P2>(b);
+		//The computations have at least the precision of the group, whatever that of a and b.
+		Vector<3, typename Internal::MultiplyType<Precision, P1>::type> va = a;
+		Vector<3, typename Internal::MultiplyType<Precision, P2>::type> vb = b;
+		Vector<3, Precision> n = va ^ vb;
 		if(norm_sq(n) == 0) {
 			//In case of underflow. Proportional vectors are scaled to the same elements, so
 			//n remains exactly 0.
@@ -255,19 +257,19 @@ inline void rodrigues_so3_exp(const Vector<S,VP, VA>& w, const Precision A, cons
 	}
 	{
 		const Precision a = A*w[2];
-		const Precision b = B*(w[0]*w[1]);
+		const Precision b = B*((Precision)w[0]*w[1]);
 		R[0][1] = b - a;
 		R[1][0] = b + a;
 	}
 	{
 		const Precision a = A*w[1];
-		const Precision b = B*(w[0]*w[2]);
+		const Precision b = B*((Precision)w[0]*w[2]);
 		R[0][2] = b + a;
 		R[2][0] = b - a;
 	}
 	{
 		const Precision a = A*w[0];
-		const Precision b = B*(w[1]*w[2]);
+		const Precision b = B*((Precision)w[1]*w[2]);
 		R[1][2] = b - a;
 		R[2][1] = b + a;
 	}
@@ -288,7 +290,9 @@ inline SO3<Precision> SO3<Precision>::exp(const Vector<S,VP,VA>& w){
 	
 	SO3<Precision> result;
 	
-	const Precision theta_sq = w*w;
+	//the angle has the precision of the group, not that of w
+	const Vector<3, Precision> axis = w;
+	const Precision theta_sq = axis*axis;
 	const Precision theta = sqrt(theta_sq);
 	Precision A, B;
 	//Use a Taylor series expansion near zero. This is required for
@@ -306,7 +310,7 @@ inline SO3<Precision> SO3<Precision>::exp(const Vector<S,VP,VA>& w){
 			B = (1 - cos(theta)) * (inv_theta * inv_theta);
 		}
 	}
-	rodrigues_so3_exp(w, A, B, result.my_matrix);
+	rodrigues_so3_exp(axis, A, B, result.my_matrix);
 	return result;
 }
 
-- 
2.43.0


From 66378541872c6ca6c15c3088e18be8a33def9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:22 +0000
Subject: [PATCH 59/61] fix: scale of SIM2 and SIM3 exp has the precision of
 the group

---
 TooN/sim2.h | 2 +-
 TooN/sim3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 3c6cc93..e76d1fa 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -346,7 +346,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	// scale
-	result.get_scale() = exp(mu[3]);
+	result.get_scale() = exp((Precision)mu[3]);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 1beb446..0d1d6e7 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -475,7 +475,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	SIM3<Precision> result;
 
 	// scale
-	result.get_scale() = exp(mu[6]);
+	result.get_scale() = exp((Precision)mu[6]);
 	
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
-- 
2.43.0


From 3e2f88a4da596fa77723a27482b1fdd89ea69551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:50 +0000
Subject: [PATCH 60/61] fix: GR_SVD of large rank deficient matrices
 underflowed to NaN

---
 TooN/GR_SVD.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index 7d6e197..c9fde8e 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -163,6 +163,10 @@ namespace TooN
     Precision g = 0.0;
     Precision scale = 0.0;
     anorm = 0.0;
+
+    // Once a rank deficient matrix is exhausted, only rounding errors are left, and the
+    // rounding errors of those. They would become smaller and smaller until they underflow.
+    const Precision negligible = std::numeric_limits<Precision>::epsilon() * std::numeric_limits<Precision>::epsilon();
     for(int i=0; i<N; ++i) // 300
       {
 	const int l = i+1; 
@@ -174,7 +178,7 @@ namespace TooN
 	  {
 	    for(int k=i; k<M; ++k)
 	      scale += abs(mU[k][i]);
-	    if(scale != 0.0)
+	    if(scale > negligible * anorm)
 	      {
 		for(int k=i; k<M; ++k)
 		  {
@@ -209,7 +213,7 @@ namespace TooN
 	  {
 	    for(int k=l; k<N; ++k)
 	      scale += abs(mU[i][k]);
-	    if(scale != 0.0)
+	    if(scale > negligible * anorm)
 	      {
 		for(int k=l; k<N; k++)
 		  {
-- 
2.43.0


From 4bafe6a981f0ded083ccce7c9f635e5a8259623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:20 +0000
Subject: [PATCH 61/61] fix: SymEigen of nearly diagonal 2x2 matrices, and of
 very large or small ones, had wrong eigenvectors

---
 TooN/SymEigen.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index bf71b97..8d1aa8e 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -103,30 +103,24 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
-			double trace = m[0][0] + m[1][1];
+			using std::hypot;
 			//Only use the upper triangular elements.
-			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
-			double disc = trace*trace - 4 * det;
-			
-			//Mathematically, disc >= 0 always.
-			//Numerically, it can drift very slightly below zero.
-			if(disc < 0)
-				disc = 0;
-
-			using std::sqrt;
-			double root_disc = sqrt(disc);
+			double diff = (double)m[0][0] - m[1][1];
+			double trace = (double)m[0][0] + m[1][1];
+			double b = m[0][1];
+			//The root of trace*trace - 4*det, without squares, which overflow and underflow.
+			double root_disc = hypot(diff, 2*b);
 			ev[0] = 0.5 * (trace - root_disc);
 			ev[1] = 0.5 * (trace + root_disc);
-			double a = m[0][0] - ev[0];
-			double b = m[0][1];
-			double magsq = a*a + b*b;
-			if (magsq == 0) {
+			//a = m[0][0] - ev[0], without cancellation
+			double a = diff >= 0 ? 0.5 * (diff + root_disc) : 2 * b * (b / (root_disc - diff));
+			double mag = hypot(a, b);
+			if (mag == 0) {
 				eig[0][0] = 1.0;
 				eig[0][1] = 0;
 			} else {
-				eig[0][0] = -b;
-				eig[0][1] = a;
-				eig[0] *= 1.0/sqrt(magsq);
+				eig[0][0] = -b / mag;
+				eig[0][1] = a / mag;
 			}
 			eig[1][0] = -eig[0][1];
 			eig[1][1] = eig[0][0];
-- 
2.43.0

