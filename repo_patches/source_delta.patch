From 6dedb2e097a9229c5905fe2b0df1c353b81bfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 01/47] fix: AABB::isEmpty() compares the z extent with the z
 maximum

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From 0a6ab30588976a683c34ba86623252dea14c7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 02/47] fix: AABB sphere constructor and sphere isIn() compile
 and use center xyz, radius w

---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..897ec8b 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = sphere.template get_sub_vector< 3 >();
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,11 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    Vector< 3, T > sv ( sphere.template get_sub_vector< 3 >() );
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv -= sphere.w() * 2.0f;
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From c06127ba341ad209f13ca0a7e3bc174dc99c6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 03/47] fix: compute_plane() returns a plane with a unit normal

---
 vmmlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..330d651 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -484,8 +484,10 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 3, T > normal = cb.cross( ba );
+    normal.normalize();
+
+    Vector< 4, T > plane = normal;
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From d8d87b03e38e79be04e46776181d23ee38c57f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 04/47] fix: Frustum::set_perspective() scales the frustum with
 the near plane

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..7d0b82c 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From ee12f64f0c1394d0a760ada51170c2205d528f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 05/47] fix: Matrix::negate() negates the matrix, not the
 identity

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..cce427b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,8 +1217,8 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
-    result *= -1.0;
+    Matrix< M, N, T > result( *this );
+    result *= static_cast< T >( -1.0 );
     return result;
 }
 
-- 
2.43.0


From 84f2afac32012c9554717e8ae0ea9687921e9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 06/47] fix: Matrix::convolve() handles non-square matrices and
 kernels

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cce427b..ad54e54 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -529,27 +529,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = int(y_) - int(U/2) + int(j);
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = int(x_) - int(V/2) + int(i);
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From 5d69983f673d6a71358a96159378665762d2c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 07/47] fix: Matrix::tensor() indexes both vectors within
 bounds for M != N

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index ad54e54..d24a222 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1230,8 +1230,8 @@ Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 }
 
 
-- 
2.43.0


From 91a020b0150d869d3fb1c08fb6a1c72831e0e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 08/47] fix: Matrix::set( begin, end, false ) stops at the end
 iterator

---
 vmmlib/matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d24a222..c5bb380 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1504,7 +1504,11 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator my_it = begin(); my_it != end() && it != end_;
+             ++my_it, ++it )
+        {
+            *my_it = static_cast< T >( *it );
+        }
     }
 }
 
-- 
2.43.0


From 3ea2f599531d9a998776ab6a9a9bb97db5439f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 09/47] fix: Matrix::get_max() is right for matrices without
 positive elements

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index c5bb380..5b4d2f7 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2357,7 +2357,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = *begin();
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From 03922645df30c7e2869138a2b9fde7a08e73f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 10/47] fix: Matrix::p_norm() uses absolute values

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 5b4d2f7..e22b2c5 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2272,7 +2272,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow( std::abs( double( *it )), p );
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From 184cf62545c4cd15055b96a5b47b5c40bcf36513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 11/47] fix: Matrix::operator*=() allows multiplying a matrix
 with itself

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e22b2c5..00999d2 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1082,8 +1082,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    Matrix< M, N, T > result;
+    result.multiply( *this, right );
+    *this = result;
     return 0;
 }
 
-- 
2.43.0


From f396bccc744f80b204b769f88f47ed8875aeef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 12/47] fix: Matrix::operator[] rejects the row index M

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 00999d2..9c3772f 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From aadb7f05e849ce59573a071026327fd44443c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 13/47] fix: rbegin() and rend() compile and iterate in reverse
 order

---
 vmmlib/matrix.hpp | 8 ++++----
 vmmlib/vector.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 9c3772f..bf97f9c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2187,7 +2187,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end());
 }
 
 
@@ -2197,7 +2197,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin());
 }
 
 
@@ -2207,7 +2207,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end());
 }
 
 
@@ -2217,7 +2217,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin());
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 330d651..d89b65d 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1576,7 +1576,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end());
 }
 
 
@@ -1584,7 +1584,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin());
 }
 
 
@@ -1592,7 +1592,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end());
 }
 
 
@@ -1600,7 +1600,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin());
 }
 
 
-- 
2.43.0


From a74904cc196450ddbb80d00e898b2d29ec73a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 14/47] fix: Matrix::read_from_raw() leaks nothing and copies
 only bytes it read

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index bf97f9c..2294a0a 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2668,19 +2668,20 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
             infile.read( data, len_read );
+            len_read = infile.gcount(); // may be less for a short file
 
             T* T_ptr = (T*)&(data[0]);
-            for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
+            for( ; (it != it_end) && (len_read >= sizeof(T)); ++it, len_read -= sizeof(T) )
             {
                 *it = *T_ptr; ++T_ptr;
             }
         }
 
-        delete[] data;
         infile.close();
     } else {
         std::cout << "no file open" << std::endl;
     }
+    delete[] data;
 
 }
 
-- 
2.43.0


From a46128c6e50605f1b0d00a9c00c05a10e71cfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 15/47] fix: quantize() to signed types round trips asymmetric
 and constant ranges

---
 vmmlib/matrix.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2294a0a..25b1748 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2469,6 +2469,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     long tt_range = (max_tt_range - min_tt_range);
 
     T t_range = max_value - min_value;
+    const T mid_value = min_value + t_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2477,8 +2478,10 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
 
     for( ; it != it_end; ++it, ++it_quant )
     {
-        if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
+        if ( t_range == 0 ) { // all values are the same
+            *it_quant = std::numeric_limits<TT>::is_signed ? TT( 0 ) : TT( min_tt_range );
+        } else if (std::numeric_limits<TT>::is_signed ) {
+            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - mid_value ) * tt_range / t_range ) + 0.5)), max_tt_range ));
         } else {
             *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
         }
@@ -2508,6 +2511,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     long t_range = (max_t_range - min_t_range);
 
     TT tt_range = max_value - min_value;
+    const TT mid_value = min_value + tt_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2516,7 +2520,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     for( ; it != it_end; ++it, ++it_dequant )
     {
         if (std::numeric_limits<T>::is_signed ) {
-            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range)), max_value );
+            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range + mid_value)), max_value );
         } else {
             *it_dequant = std::min( std::max( min_value, TT((((TT(*it) / t_range)) * tt_range ) + min_value)), max_value );
         }
-- 
2.43.0


From 57ba9d4687b81a958b628f829cf90a8af294f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 16/47] fix: Quaternion::set( matrix ) has the right w sign for
 rotations near 180 degrees

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..5b7ee1c 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From 63eee293dd84a2ba86f590d793e0bd86ce58f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 17/47] fix: Quaternion/Vector<3> operators put x, y, z and w
 in their places

---
 vmmlib/quaternion.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 5b7ee1c..619bdf7 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
+    return Quaternion(  w() * a.x() + y() * a.z() - z() * a.y(),
                         w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+                        w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z() );
 }
 
 
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From 0fae2e1b8ac41300ebc0e7831aed4ca1f4564c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 18/47] fix: Quaternion::set( begin, end ), rotate() and
 rotate_x/y/z() compile

---
 vmmlib/quaternion.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 619bdf7..a663bf6 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -392,7 +392,7 @@ template < typename T >
 template< typename input_iterator_t >
 void Quaternion< T >::set( input_iterator_t begin_, input_iterator_t end_ )
 {
-    super::template set< input_iterator_t >( begin_, end_ );
+    super::template iter_set< input_iterator_t >( begin_, end_ );
 }
 
 
@@ -843,8 +843,9 @@ Quaternion< T > Quaternion< T >::rotate( T theta, Vector< 3, T >& axis,
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) * axis.normalize() );
-    return q * p * q.invert();
+    axis.normalize();
+    Quaternion< T > q( axis * T( std::sin( alpha )), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -854,8 +855,8 @@ Quaternion< T > Quaternion< T >::rotate_x( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERI );
-    return q * p * q.invert();
+    Quaternion< T > q( std::sin( alpha ), T( 0 ), T( 0 ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -865,8 +866,8 @@ Quaternion< T > Quaternion< T >::rotate_y( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERJ );
-    return q * p * q.invert();
+    Quaternion< T > q( T( 0 ), std::sin( alpha ), T( 0 ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -876,8 +877,8 @@ Quaternion< T > Quaternion< T >::rotate_z( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERK );
-    return q * p * q.invert();
+    Quaternion< T > q( T( 0 ), T( 0 ), std::sin( alpha ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
-- 
2.43.0


From 89bba9837ff55c391950facaa55d811efd6d801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 19/47] fix: define Quaternion::negate()

---
 vmmlib/quaternion.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index a663bf6..ae5797b 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -623,6 +623,13 @@ void Quaternion< T >::operator*=( const Quaternion< T >& q )
 
 
 
+template < typename T >
+Quaternion< T > Quaternion< T >::negate() const
+{
+    return -( *this );
+}
+
+
 template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-() const
-- 
2.43.0


From 07a16a1640a32600705c906c689e9fbf3922c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 20/47] fix: Vector::find_abs_max_index() finds the largest
 magnitude

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index d89b65d..af65a16 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1499,7 +1499,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From c055bee74055b72924a5188230d5bd9ad590ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 21/47] fix: Vector::scale_to() maps asymmetric ranges

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index af65a16..5e0adec 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1446,13 +1446,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From 1587085c95e015328d3af1d0b9835738bdb19e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 22/47] fix: Vector::equals() is false if a component is NaN

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 5e0adec..591260e 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1326,7 +1326,7 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+        if( !( fabs( at( index ) - other( index ) ) < tolerance ))
             return false;
     return true;
 
-- 
2.43.0


From 2870c0e2e65c36258e11d65e6aa763c99009e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 23/47] fix: Vector::operator==() compares values, not bytes

---
 vmmlib/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 591260e..af3ad3b 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1310,7 +1310,10 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    for( size_t index = 0; index < M; ++index )
+        if( !( array[ index ] == other.array[ index ] ))
+            return false;
+    return true;
 }
 
 
-- 
2.43.0


From a196996acf5f34578fab63fccaa993147286da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 24/47] fix: LowpassFilter starts with a defined value and
 includes what it uses

---
 vmmlib/lowpass_filter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/lowpass_filter.hpp b/vmmlib/lowpass_filter.hpp
index 59b083b..1925d3b 100644
--- a/vmmlib/lowpass_filter.hpp
+++ b/vmmlib/lowpass_filter.hpp
@@ -41,6 +41,7 @@
 
 #include <vmmlib/vmmlib_config.hpp>
 
+#include <cstddef>
 #include <deque>
 
 namespace vmml
@@ -52,7 +53,7 @@ public:
       Constructor
       @param[in]    F   Smooth factor to use during the filter process
      */
-    LowpassFilter( const float F ) : _smooth_factor(F) {}
+    LowpassFilter( const float F ) : _smooth_factor(F), _value() {}
     ~LowpassFilter() {}
 
     /**
-- 
2.43.0


From 989eb71d4c8705356c4b0cf2038f9ba0716faf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 25/47] fix: QR uses the stabilized Gram-Schmidt it documents

---
 vmmlib/qr_decomposition.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/qr_decomposition.hpp b/vmmlib/qr_decomposition.hpp
index 29ca94d..2f2ed84 100644
--- a/vmmlib/qr_decomposition.hpp
+++ b/vmmlib/qr_decomposition.hpp
@@ -101,9 +101,8 @@ void qr_decompose_gram_schmidt(
         for( unsigned i = 0; i < j; ++i )
         {
             Q.get_column( i, q_column );
-            A.get_column( j, a_column );
 
-            R( i, j ) = dot( q_column, a_column );
+            R( i, j ) = dot( q_column, v );
             v -= q_column * R(i,j);
         }
         R(j,j) = v.length();
-- 
2.43.0


From 1dd79800d4b5b59d7835a4c9beaa451c83a8d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 26/47] fix: operator<< restores the alignment flags of the
 stream

---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 7d0b82c..75a5644 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 25b1748..dc25e4b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -470,7 +470,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index af3ad3b..f3183fa 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -348,7 +348,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 42643469074845b90ebbdd7de8c2b322bb30a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 27/47] fix: free multiply() is not ambiguous for square
 matrices

---
 vmmlib/matrix.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index dc25e4b..75fe61e 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -513,16 +513,6 @@ bool equals( const Matrix< M, N, T >& m0, const Matrix< M, N, T >& m1,
 }
 
 
-template< size_t M, size_t N, typename T >
-inline void multiply( const Matrix< M, N, T >& left,
-                      const Matrix< M, N, T >& right,
-                      Matrix< M, N, T >& result )
-{
-    result.multiply( left, right );
-}
-
-
-
 template< size_t M, size_t N, typename T >
 template< size_t U, size_t V >
 void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
-- 
2.43.0


From bfafe67ff8a47107423f9444c3eac5f501e776ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 28/47] fix: Quaternion::is_akin() compares in its own
 precision and rejects NaN

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index ae5797b..9b7f23b 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,10 +457,10 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( fabsf( w() - a.w() ) > delta ||
-        fabsf( x() - a.x() ) > delta ||
-        fabsf( y() - a.y() ) > delta ||
-        fabsf( z() - a.z() ) > delta
+    if( !( std::abs( w() - a.w() ) <= delta ) ||
+        !( std::abs( x() - a.x() ) <= delta ) ||
+        !( std::abs( y() - a.y() ) <= delta ) ||
+        !( std::abs( z() - a.z() ) <= delta )
         )
         return false;
     return true;
-- 
2.43.0


From b13a3ef5ad57d34f296053c6ebd7cbcdb603031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 29/47] fix: equals() with tolerance holds for unsigned
 elements

---
 vmmlib/matrix.hpp | 5 ++++-
 vmmlib/vector.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 75fe61e..2459d70 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -925,7 +925,10 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            // unsigned differences must not wrap around
+            const T& a = at( row_index, col_index );
+            const T& b = other( row_index, col_index );
+            is_ok = fabs( a < b ? b - a : a - b ) < tolerance;
         }
     }
     return is_ok;
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index f3183fa..2b6527d 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1329,8 +1329,13 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( !( fabs( at( index ) - other( index ) ) < tolerance ))
+    {
+        // unsigned differences must not wrap around
+        const T& a_ = at( index );
+        const T& b_ = other( index );
+        if( !( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) < tolerance ))
             return false;
+    }
     return true;
 
 }
-- 
2.43.0


From 0fda59e4dfd74332b4e9f3541973e3742e8c6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 30/47] fix: AABB is empty for every element type

---
 vmmlib/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 897ec8b..7dbd3ea 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -114,7 +114,7 @@ inline std::ostream& operator << ( std::ostream& os,
 
 template< typename T > AABB< T >::AABB()
     : _min( std::numeric_limits< T >::max( ))
-    , _max( std::numeric_limits< T >::min( ))
+    , _max( std::numeric_limits< T >::lowest( ))
 {}
 
 template<> inline AABB< float >::AABB()
@@ -364,7 +364,7 @@ template< typename T >inline
 void AABB< T >::setEmpty()
 {
     _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    _max = std::numeric_limits< T >::lowest();
 }
 
 
-- 
2.43.0


From ee65c05646c3af36680faba9e6b5cd1c44c87ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 31/47] fix: AABB::getCenter() is right for integer boxes

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 7dbd3ea..bc3e716 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -312,7 +312,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( ( _max - _min ) / T( 2 ) );
 }
 
 template< typename T >
-- 
2.43.0


From 85d2e22b98945fa70adb317c028177e3f2977286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 32/47] fix: math::pythag() keeps long double precision when
 |b| > |a|

---
 vmmlib/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/math.hpp b/vmmlib/math.hpp
index 30d9013..a76e9a8 100644
--- a/vmmlib/math.hpp
+++ b/vmmlib/math.hpp
@@ -65,7 +65,7 @@ inline T pythag( T a, T b )
     if ( a > b )
         return a * std::sqrt( 1.0 + squared( b / a ) );
     else
-        return ( b == 0.0 ) ? 0.0 : b * sqrt( 1.0 + squared( a / b ) );
+        return ( b == 0.0 ) ? 0.0 : b * std::sqrt( 1.0 + squared( a / b ) );
 }
 
 
-- 
2.43.0


From 5c453d185c2553a43fbb48ee52e572c65f09382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 33/47] fix: 2x2 inverse refuses singular matrices with
 tolerance 0, as 3x3 and 4x4 do

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 2459d70..f2540a1 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -657,7 +657,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From 830bfb377f1f8d11d1dda722e90da0cc1a1e8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 34/47] fix: Matrix::frobenius_norm() squares in double, so
 huge floats and ints do not overflow

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index f2540a1..402d613 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2251,7 +2251,8 @@ Matrix< M, N, T >::frobenius_norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += *it * *it;
+        const double value = *it;
+        norm += value * value;
     }
 
     return std::sqrt(norm);
-- 
2.43.0


From 0fb4b60f0917d7b05cafc5e9bb359f10447c696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 35/47] fix: Vector::norm() squares in double, so huge floats
 and ints do not overflow

---
 vmmlib/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 2b6527d..661a045 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1752,7 +1752,8 @@ Vector< M, T >::norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm_v += *it * *it;
+        const double value = *it;
+        norm_v += value * value;
     }
 
     return std::sqrt(norm_v);
-- 
2.43.0


From 3c67f9f7a11911149633511b10aa6c7aab5c4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 36/47] fix: quantize_to() scales after dividing, so large
 ranges do not overflow

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 402d613..0c7ff88 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2475,9 +2475,9 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
         if ( t_range == 0 ) { // all values are the same
             *it_quant = std::numeric_limits<TT>::is_signed ? TT( 0 ) : TT( min_tt_range );
         } else if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - mid_value ) * tt_range / t_range ) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long((double( *it - mid_value ) / t_range * tt_range ) + 0.5)), max_tt_range ));
         } else {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long((double( *it - min_value ) / t_range * tt_range) + 0.5)), max_tt_range ));
         }
     }
 }
-- 
2.43.0


From e27a21c98d5815e7a3a451930ea2ba468927259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 37/47] fix: matrix to quaternion uses the trace form only for
 traces that keep their digits: floats lost all but two near half turns

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9b7f23b..2baabf5 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -52,7 +52,7 @@
 
 // - declaration - //
 
-#define QUATERNION_TRACE_EPSILON 1e-5
+#define QUATERNION_TRACE_EPSILON 0.1
 
 namespace vmml
 {
-- 
2.43.0


From d3feecd827588bf633bc13dc95a5b6abf732e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 38/47] fix: get_abs_min(), get_abs_max(), nnz() and
 threshold() keep long double elements exact

---
 vmmlib/matrix.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0c7ff88..e173668 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2376,8 +2376,8 @@ Matrix< M, N, T >::get_abs_min() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) < fabs(min_value) ) {
-            min_value = fabs(*it);
+        if ( std::fabs(*it) < std::fabs(min_value) ) {
+            min_value = std::fabs(*it);
         }
     }
     return min_value;
@@ -2393,8 +2393,8 @@ Matrix< M, N, T >::get_abs_max() const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > fabs(max_value) ) {
-            max_value = fabs(*it);
+        if ( std::fabs(*it) > std::fabs(max_value) ) {
+            max_value = std::fabs(*it);
         }
     }
     return max_value;
@@ -2430,7 +2430,7 @@ Matrix< M, N, T >::nnz( const T& threshold_ ) const
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) > threshold_ ) {
+        if ( std::fabs(*it) > threshold_ ) {
             ++counter;
         }
     }
@@ -2446,7 +2446,7 @@ Matrix< M, N, T >::threshold( const T& threshold_value_ )
     it_end = end();
     for( ; it != it_end; ++it)
     {
-        if ( fabs(*it) <= threshold_value_ ) {
+        if ( std::fabs(*it) <= threshold_value_ ) {
             *it = static_cast<T> (0);
         }
     }
-- 
2.43.0


From 0cad6276ffb6739159bd1c3acb03009fab95c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 39/47] fix: inverse() judges the determinant in the element
 type: long double ones below the double range were taken for zero

---
 vmmlib/matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index e173668..ce4582c 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -657,7 +657,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) <= tolerance_ )
+    if( std::fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
@@ -690,7 +690,7 @@ bool compute_inverse( const Matrix< 3, 3, T >& m_, Matrix< 3, 3, T >& inverse_,
         + m_.at( 0, 1 ) * inverse_.at( 1, 0 )
         + m_.at( 0, 2 ) * inverse_.at( 2, 0 );
 
-    if ( fabs( determinant ) <= tolerance_ )
+    if ( std::fabs( determinant ) <= tolerance_ )
         return false; // matrix is not invertible
 
     const T detinv = static_cast< T >( 1.0 ) / determinant;
@@ -757,7 +757,7 @@ bool compute_inverse( const Matrix< 4, 4, T >& m_,
    const T determinant = array[0] * inv_.array[0] + array[4] * inv_.array[1] +
                          array[8] * inv_.array[2] + array[12] * inv_.array[3];
 
-   if( fabs( determinant ) <= tolerance_ )
+   if( std::fabs( determinant ) <= tolerance_ )
         return false; // matrix is not invertible
 
    /* division: 16 multiplications, 1 division */
-- 
2.43.0


From 9243fdcb0ececd51cb28e5ac8a47e9e74b3edbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 40/47] fix: equals() compares long double differences with the
 tolerance unrounded

---
 vmmlib/matrix.hpp | 2 +-
 vmmlib/vector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index ce4582c..cf4cff9 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -928,7 +928,7 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
             // unsigned differences must not wrap around
             const T& a = at( row_index, col_index );
             const T& b = other( row_index, col_index );
-            is_ok = fabs( a < b ? b - a : a - b ) < tolerance;
+            is_ok = std::fabs( a < b ? b - a : a - b ) < tolerance;
         }
     }
     return is_ok;
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 661a045..a5b02eb 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1333,7 +1333,7 @@ Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
         // unsigned differences must not wrap around
         const T& a_ = at( index );
         const T& b_ = other( index );
-        if( !( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) < tolerance ))
+        if( !( std::fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) < tolerance ))
             return false;
     }
     return true;
-- 
2.43.0


From 953b0ba3221c0fdeca59ac547987c0b5213888f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 41/47] fix: quaternions of long double keep their precision:
 roots and arcs were taken in double

---
 vmmlib/quaternion.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 2baabf5..1a205bb 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -279,7 +279,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
     // very small traces may introduce a big numerical error
     if( trace > QUATERNION_TRACE_EPSILON )
     {
-        T s = 0.5 / sqrt( trace );
+        T s = 0.5 / std::sqrt( trace );
         x() = M( 2, 1 ) - M( 1, 2 );
         x() *= s;
 
@@ -299,7 +299,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         // 0, 0 is largest
         if ( largest == 0 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 0, 0 ) - M( 1, 1 ) - M( 2, 2 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 0, 0 ) - M( 1, 1 ) - M( 2, 2 ) );
             x() = 0.25 / s;
 
             y() = M( 0,1 ) + M( 1,0 );
@@ -313,7 +313,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         }
         else if ( largest == 1 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 1,1 ) - M( 0,0 ) - M( 2,2 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 1,1 ) - M( 0,0 ) - M( 2,2 ) );
             x() = M( 0,1 ) + M( 1,0 );
             x() *= s;
 
@@ -328,7 +328,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
         // 2, 2 is largest
         else if ( largest == 2 )
         {
-            T s = 0.5 / sqrt( 1.0 + M( 2,2 ) - M( 0,0 ) - M( 1,1 ) );
+            T s = 0.5 / std::sqrt( 1.0 + M( 2,2 ) - M( 0,0 ) - M( 1,1 ) );
             x() = M( 0,2 ) + M( 2,0 );
             x() *= s;
 
@@ -490,7 +490,7 @@ template < typename T >
 T
 Quaternion< T >::abs() const
 {
-    return sqrt( squared_abs() );
+    return std::sqrt( squared_abs() );
 }
 
 
@@ -943,13 +943,13 @@ slerp( T a, const Quaternion< T >& p, const Quaternion< T >& q, const T epsilon
         qx = -qx;
     }
 
-    const T abs_cos = static_cast< T >( fabs(cosine) );
+    const T abs_cos = static_cast< T >( std::fabs(cosine) );
     const T one_x   = static_cast< T >( 1. - epsilon );
     if( abs_cos < one_x )
     {
         // standard slerp
-        T sine = sqrt( 1. - ( cosine * cosine ) );
-        T angle = atan2( sine, cosine );
+        T sine = std::sqrt( 1. - ( cosine * cosine ) );
+        T angle = std::atan2( sine, cosine );
         T coeff1 = std::sin( ( 1.0 - a ) * angle) / sine;
         T coeff2 = std::sin( a * angle ) / sine;
 
-- 
2.43.0


From 7d8dc9a32fa9f8dc4a5b822c90443fed2b440d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 42/47] fix: ray distance and frustum width and height keep
 long double precision

---
 vmmlib/frustum.hpp      | 4 ++--
 vmmlib/intersection.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 75a5644..1f22f3d 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -418,12 +418,12 @@ inline const T& Frustum< T >::far_plane() const
 
 template< typename T > inline T Frustum< T >::get_width() const
 {
-    return fabs( right() - left( ));
+    return std::fabs( right() - left( ));
 }
 
 template< typename T > inline T Frustum< T >::get_height() const
 {
-    return fabs( top() - bottom( ));
+    return std::fabs( top() - bottom( ));
 }
 
 
diff --git a/vmmlib/intersection.hpp b/vmmlib/intersection.hpp
index b191cff..de4b7b0 100644
--- a/vmmlib/intersection.hpp
+++ b/vmmlib/intersection.hpp
@@ -105,7 +105,7 @@ Intersection< T >::test_sphere( const vec4& sphere, T& t ) const
         return false;
 
     /** Distance from the sphere center to the surface along the ray direction*/
-    const T distSurface = sqrt( sqRadius - sqCenterToProj );
+    const T distSurface = std::sqrt( sqRadius - sqCenterToProj );
 
     if(sqDistance > sqRadius)
         t = vecProjection - distSurface;
-- 
2.43.0


From 15797a93af6032923b512efb9f7453538762fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 43/47] fix: a box of integers judges large spheres exactly:
 the diameter was taken in float

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bc3e716..92dbb30 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -157,7 +157,7 @@ inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
     sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.w() * 2.0f;
+    sv -= sphere.w() * T( 2 );
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From 90d362e3e6284ddde4ef3b8c96fea1a21623c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 44/47] fix: scale_to maps the largest value to the largest
 code: converting a rounded-up limit was undefined

---
 vmmlib/vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index a5b02eb..ea885a6 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1454,12 +1454,15 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
+    const T limit = static_cast< T >( std::numeric_limits< TT >::max() );
+    T scale       = ( 1.0 / range ) * limit;
 
     for( size_t index = 0; index < M; ++index )
     {
-        result_.at( index )
-            = static_cast< TT >( ( at( index ) - min_value ) * scale );
+        const T scaled = ( at( index ) - min_value ) * scale;
+        // limit may be rounded up, beyond what TT can hold
+        result_.at( index ) = scaled < limit ? static_cast< TT >( scaled )
+                                         : std::numeric_limits< TT >::max();
     }
 
 }
-- 
2.43.0


From 92e10fe633c8c34f786b27753db5e64b1807985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 45/47] fix: convolve keeps the digits of wide element types:
 sums went through double

---
 vmmlib/matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cf4cff9..676fc80 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -49,6 +49,7 @@
 #include <string>
 #include <cstring>
 #include <fstream>   // file I/O
+#include <type_traits>
 
 namespace vmml
 {
@@ -523,7 +524,9 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
     {
         for(size_t x_ = 0; x_ < N; ++x_)
         {
-            double sum = 0.0;
+            // at least double, without losing digits of T
+            typename std::conditional< ( sizeof( T ) < sizeof( double )),
+                                       double, T >::type sum = 0;
 
             for(size_t j = 0; j < U; ++j)
             {
-- 
2.43.0


From f8c55e022a11080bf602a5431238c3f2c812a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 46/47] fix: box culling in long double took extents and
 normals through double

---
 vmmlib/frustum_culler.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vmmlib/frustum_culler.hpp b/vmmlib/frustum_culler.hpp
index 432fd02..4b3d449 100644
--- a/vmmlib/frustum_culler.hpp
+++ b/vmmlib/frustum_culler.hpp
@@ -255,6 +255,8 @@ Visibility FrustumCuller< T >::_test_aabb( const vec4& plane,
                                             const vec3& middle,
                                             const vec3& extent ) const
 {
+    using std::fabs; // ::fabs computes in double
+
     // http://www.cescg.org/CESCG-2002/DSykoraJJelinek/index.html
     const T d = plane.dot( middle );
     const T n = extent.x() * fabs( plane.x( )) +
@@ -272,6 +274,8 @@ template < class T >
 Visibility FrustumCuller< T >::test_aabb( const vec2& x, const vec2& y,
                                            const vec2& z ) const
 {
+    using std::fabs; // ::fabs computes in double
+
     Visibility result = VISIBILITY_FULL;
     const vec3& middle = vec3( x[0] + x[1], y[0] + y[1], z[0] + z[1] ) * .5;
     const vec3& extent = vec3( fabs(x[1] - x[0]), fabs(y[1] - y[0]),
-- 
2.43.0


From 7344b567c4a924dd74de070f2fcbbaddcae04b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 47/47] fix: equals compares long doubles in their own
 precision

---
 vmmlib/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/util.hpp b/vmmlib/util.hpp
index d289dbf..f3c63ef 100644
--- a/vmmlib/util.hpp
+++ b/vmmlib/util.hpp
@@ -53,7 +53,7 @@ template< typename T, typename U >
 bool
 equals( T arg0, U arg1)
 {
-    return fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();
+    return std::fabs( arg0 - arg1 ) < std::numeric_limits< float >::epsilon();
 }
 
 
-- 
2.43.0

