From 827f77e33577c323c1e28d0b379af35543a581d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 1/7] fix: do not pass a null pointer to memcpy on an empty
 sha2 update

---
 include/boost/hash2/sha2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..a2c9d6d 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -54,6 +54,8 @@ struct sha2_base
 
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From ad6fdb4492e13a1011d0b1efc7f99df874f552ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 2/7] fix: avoid signed overflow in get_integral_result from 16
 to 8 bits

---
 include/boost/hash2/get_integral_result.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..2b960a1 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,10 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    // avoid the promotion of narrow R to int, where r * m can overflow
+    typedef typename std::common_type<R, unsigned>::type W;
+
+    return static_cast<T>( static_cast<U>( ( static_cast<W>( r ) * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From f3e73c88e381b3f9ad73395b4b1312018c6f33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 3/7] fix: make get_integral_result constexpr and noexcept as
 documented

---
 include/boost/hash2/get_integral_result.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index 2b960a1..6d3143c 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -6,6 +6,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #include <boost/hash2/detail/read.hpp>
+#include <boost/config.hpp>
 #include <type_traits>
 #include <limits>
 #include <cstddef>
@@ -132,8 +133,8 @@ template<class U, class R>
 // contraction
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) > sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -153,8 +154,8 @@ template<class T, class R>
 // identity or expansion
 
 template<class T, class R>
-    typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if<std::is_integral<R>::value && (sizeof(R) <= sizeof(T)), T>::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
@@ -171,8 +172,8 @@ template<class T, class R>
 // array-like R
 
 template<class T, class R>
-    typename std::enable_if< !std::is_integral<R>::value, T >::type
-    get_integral_result( R const & r )
+    BOOST_CXX14_CONSTEXPR typename std::enable_if< !std::is_integral<R>::value, T >::type
+    get_integral_result( R const & r ) noexcept
 {
     static_assert( std::is_integral<T>::value, "T must be integral" );
     static_assert( !std::is_same<typename std::remove_cv<T>::type, bool>::value, "T must not be bool" );
-- 
2.43.0


From 85d1d5beb50d308b17b2852668c6db2cdde5e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 4/7] fix: give tag_invoke and ranges their documented
 precedence in hash_append

---
 include/boost/hash2/hash_append.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..6d0c500 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -190,7 +190,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< std::is_enum<T>::value, void >::type
+    typename std::enable_if< std::is_enum<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append( h, f, static_cast<typename std::underlying_type<T>::type>( v ) );
@@ -245,7 +245,7 @@ template<class Hash, class Flavor, class T, std::size_t N> BOOST_CXX14_CONSTEXPR
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_contiguous_range<T>::value && !has_constant_size<T>::value, void >::type
+    typename std::enable_if< container_hash::is_contiguous_range<T>::value && !has_constant_size<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_range( h, f, v.data(), v.data() + v.size() );
@@ -256,7 +256,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_range<T>::value && !has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_range<T>::value && !has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_sized_range( h, f, v.begin(), v.end() );
@@ -271,7 +271,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_contiguous_range<T>::value && has_constant_size<T>::value, void >::type
+    typename std::enable_if< container_hash::is_contiguous_range<T>::value && has_constant_size<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     if( v.size() == 0 )
@@ -290,7 +290,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_range<T>::value && has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_range<T>::value && has_constant_size<T>::value && !container_hash::is_contiguous_range<T>::value && !container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     if( v.begin() == v.end() )
@@ -312,7 +312,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_unordered_range<T>::value, void >::type
+    typename std::enable_if< container_hash::is_unordered_range<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     hash2::hash_append_unordered_range( h, f, v.begin(), v.end() );
@@ -335,7 +335,7 @@ template<class Hash, class Flavor, class T> BOOST_CXX14_CONSTEXPR void hash_appe
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< !container_hash::is_range<T>::value && container_hash::is_tuple_like<T>::value, void >::type
+    typename std::enable_if< !container_hash::is_range<T>::value && container_hash::is_tuple_like<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     using Seq = mp11::make_index_sequence<std::tuple_size<T>::value>;
@@ -353,7 +353,7 @@ template<class Hash, class Flavor, class T>
 
 template<class Hash, class Flavor, class T>
     BOOST_CXX14_CONSTEXPR
-    typename std::enable_if< container_hash::is_described_class<T>::value, void >::type
+    typename std::enable_if< container_hash::is_described_class<T>::value && !container_hash::is_range<T>::value && !container_hash::is_tuple_like<T>::value && !detail::has_tag_invoke<T>::value, void >::type
     do_hash_append( Hash& h, Flavor const& f, T const& v )
 {
     static_assert( !std::is_union<T>::value, "Described unions are not supported" );
-- 
2.43.0


From fa1c147d7f1eeedc6d16247187302116ba2bd89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 5/7] fix: append proxy-reference elements as their value type
 in sized and unordered ranges

---
 include/boost/hash2/hash_append.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index 6d0c500..4df42a3 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -123,7 +123,8 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 
     for( ; first != last; ++first, ++m )
     {
-        hash2::hash_append( h, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h, f, v );
     }
 
     hash2::hash_append_size( h, f, m );
@@ -152,8 +153,10 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
 
     for( ; first != last; ++first, ++m )
     {
+        typename std::iterator_traits<It>::value_type const& v = *first;
+
         Hash h2( h );
-        hash2::hash_append( h2, f, *first );
+        hash2::hash_append( h2, f, v );
 
         w += hash2::get_integral_result<std::uint64_t>( h2.result() );
     }
-- 
2.43.0


From f7cced1caf73bbc27814b8527fa62ecc5654f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 6/7] fix: xxhash_32: count the message length in 64 bits on
 32-bit platforms too

---
 include/boost/hash2/xxhash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0


From 79e2071f9edb1376f8a09de44217ff951446eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 7/7] fix: murmur3_128, spooky2_128: count the message length
 in 64 bits on 32-bit platforms too

---
 include/boost/hash2/legacy/murmur3.hpp | 2 +-
 include/boost/hash2/legacy/spooky2.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/hash2/legacy/murmur3.hpp b/include/boost/hash2/legacy/murmur3.hpp
index d04899a..34b0606 100644
--- a/include/boost/hash2/legacy/murmur3.hpp
+++ b/include/boost/hash2/legacy/murmur3.hpp
@@ -221,7 +221,7 @@ private:
     unsigned char buffer_[ 16 ];
     std::size_t m_; // == n_ % 16
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
diff --git a/include/boost/hash2/legacy/spooky2.hpp b/include/boost/hash2/legacy/spooky2.hpp
index 6d76c7f..949291d 100644
--- a/include/boost/hash2/legacy/spooky2.hpp
+++ b/include/boost/hash2/legacy/spooky2.hpp
@@ -37,7 +37,7 @@ private:
 
     std::size_t m_; // == n_ % N
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
@@ -339,7 +339,7 @@ public:
 
         if( n_ < N )
         {
-            short_hash( buffer_, n_, h0, h1 );
+            short_hash( buffer_, static_cast<std::size_t>( n_ ), h0, h1 );
         }
         else
         {
-- 
2.43.0

