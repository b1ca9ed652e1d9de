From 1e16f798bb1afb21d88e9c20eb56a937534dcddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 01/74] fix: container_tools.hpp compiles with gcc and clang
 (typename placement, missing includes and semicolon)

---
 flut/container_tools.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flut/container_tools.hpp b/flut/container_tools.hpp
index 80e7f4b..1035cd6 100644
--- a/flut/container_tools.hpp
+++ b/flut/container_tools.hpp
@@ -2,6 +2,8 @@
 
 #include "flut/system/types.hpp"
 #include "system/assert.hpp"
+#include <algorithm>
+#include <iterator>
 #include <numeric>
 
 namespace flut
@@ -31,7 +33,7 @@ namespace flut
 	{ return std::max_element( std::cbegin( cont ), std::cend( cont ) ); }
 
 	template< typename I > typename I::value_type average( I b, I e )
-	{ return std::accumulate( b, e, I::value_type( 0 ) ) / typename I::value_type( e - b ); }
+	{ return std::accumulate( b, e, typename I::value_type( 0 ) ) / typename I::value_type( e - b ); }
 
 	template< typename C > typename C::value_type average( const C& cont )
 	{ return average( std::begin( cont ), std::end( cont ) ); }
@@ -66,7 +68,7 @@ namespace flut
 	}
 
 	template< typename T > index_t back_index( const vector< T >& vec )
-	{ flut_assert( vec.size() > 0 ) return vec.size() - 1; }
+	{ flut_assert( vec.size() > 0 ); return vec.size() - 1; }
 
 	template< typename It, typename Pr > struct view_if {
 		view_if( It first, It last, Pr pred ) : first_( first ), last_( last ), pred_( pred ) {}
@@ -77,8 +79,8 @@ namespace flut
 			iterator operator++( int ) { auto keepit = *this; ++pos_; next_match(); return keepit; }
 			bool operator==( const iterator& other ) { return pos_ == other.pos_; }
 			bool operator!=( const iterator& other ) { return pos_ != other.pos_; }
-			typename const It::value_type& operator*() const { return *pos_; }
-			typename const It::value_type* operator->() const { return &(*pos_); }
+			const typename It::value_type& operator*() const { return *pos_; }
+			const typename It::value_type* operator->() const { return &(*pos_); }
 			const view_if& cv_;
 			It pos_;
 		};
-- 
2.43.0


From e001ab10c767cd7382d7cbc2db6fdd98e6cbb68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 02/74] fix: filesystem.cpp compiles on non-Windows platforms

---
 flut/filesystem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 2885960..eff1439 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -8,8 +8,12 @@
 #	include <conio.h>
 #	include <shlobj.h>
 #	pragma warning( disable: 4996 )
+#	include <direct.h>
+#else
+#	include <sys/stat.h>
+#	include <unistd.h>
+#	include <cstdlib>
 #endif
-#include <direct.h>
 
 namespace flut
 {
@@ -33,7 +37,7 @@ namespace flut
 		return get_known_windows_folder( FOLDERID_LocalAppData );
 #else
 		string homeDir = std::getenv( "HOME" );
-		return homeDir + "/.config";
+		return path( homeDir + "/.config" );
 #endif
 	}
 
@@ -82,7 +86,7 @@ namespace flut
 		return GetFileAttributes( path( p ).make_preferred().c_str() ) != INVALID_FILE_ATTRIBUTES;
 #else
 		struct stat info;
-		return stat( path, &info ) == 0;
+		return stat( p.c_str(), &info ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 6ba260627d19c92d73b456d1cc41946c5f382b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 03/74] fix: parse_prop( const char* ) no longer binds a
 temporary to a non-const reference

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9145764..2a53d85 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -151,7 +151,8 @@ namespace flut
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
 	{
-		return parse_prop( char_stream( str, "\n\r\t\v;" ), ec );
+		char_stream cs( str, "\n\r\t\v;" );
+		return parse_prop( cs, ec );
 	}
 
 	FLUT_API prop_node load_prop( const path& filename, error_code* ec )
-- 
2.43.0


From 053f6c9ff17a315b4213eb8aafedde65555a4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 04/74] fix: pattern_match uses its pattern argument on
 non-MSVC compilers

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 5c6e002..581193b 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -89,7 +89,7 @@ namespace flut
 		flut_assert_msg( str.find_first_of( ";" ) == string::npos, "pattern_match patterns cannot contain ';' on MSVC" );
 		return PathMatchSpecEx( str.c_str(), pattern.c_str(), PMSF_NORMAL ) == S_OK;
 #else
-		return fnmatch( p.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
+		return fnmatch( pattern.c_str(), str.c_str(), FNM_NOESCAPE ) == 0;
 #endif
 	}
 
-- 
2.43.0


From 3fd3d0af73e2aaeac53b95143c1d9db1b5378ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 05/74] fix: irange.hpp compiles with gcc and clang

---
 flut/math/irange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 4e62555..6d4ce68 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <xutility>
+#include <iterator>
 
 namespace flut
 {
@@ -18,7 +18,7 @@ namespace flut
 			T value_;
 			T operator-( const iterator& other ) { return value_ - other.value_; }
 			T operator++() { return ++value_; }
-			T operator++( int ) { return value++; }
+			T operator++( int ) { return value_++; }
 			bool operator==( const iterator& other ) { return other.value_ == value_; }
 			bool operator!=( const iterator& other ) { return other.value_ != value_; }
 			T operator*() { return value_; }
-- 
2.43.0


From 1d3cd69e3fc4a5dee217fa5436a6be95f138142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 06/74] fix: linear_regression.hpp includes what it uses
 instead of an MSVC internal header

---
 flut/math/linear_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/linear_regression.hpp b/flut/math/linear_regression.hpp
index c2df43d..2b27d96 100644
--- a/flut/math/linear_regression.hpp
+++ b/flut/math/linear_regression.hpp
@@ -3,7 +3,7 @@
 #include <numeric>
 #include "math.hpp"
 #include "polynomial.hpp"
-#include <xtr1common>
+#include "flut/container_tools.hpp"
 
 namespace flut
 {
-- 
2.43.0


From d604a2ae1b57e60466942f8af4d1fb7dbb7f48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 07/74] fix: factory.hpp includes system_tools.hpp for
 clean_type_name

---
 flut/factory.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/factory.hpp b/flut/factory.hpp
index 86510f0..bbe5621 100644
--- a/flut/factory.hpp
+++ b/flut/factory.hpp
@@ -5,6 +5,7 @@
 #include "system/assert.hpp"
 #include "system/platform.hpp"
 #include "flat_map.hpp"
+#include "system_tools.hpp"
 
 // need for demangling with GCC
 #ifndef FLUT_COMP_MSVC
-- 
2.43.0


From c5958e418060add573897b4e589330c5bccef163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 08/74] fix: missing increment in catmull_rom segment loop

---
 flut/math/catmull_rom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index a1b8ced..2c9042d 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -67,7 +67,7 @@ namespace flut
 		{
 			flut_assert( points.size() >= 4 && times.size() == ( points.size() - 2 ) );
 			segments_.reserve( points.size() - 4 );
-			for ( size_t i = 0; i <= points.size() - 4 )
+			for ( size_t i = 0; i <= points.size() - 4; ++i )
 				segments_.emplace_back( points[ i ], points[ i + 1 ], points[ i + 2 ], points[ i + 3 ] );
 		}
 
-- 
2.43.0


From 6bc3fffe4fa14535b5c71c84c41fdf7787af575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 09/74] fix: data_algorithms.hpp includes storage.hpp

---
 flut/buffer/data_algorithms.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/buffer/data_algorithms.hpp b/flut/buffer/data_algorithms.hpp
index e4fa6b4..0b277e0 100644
--- a/flut/buffer/data_algorithms.hpp
+++ b/flut/buffer/data_algorithms.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "flut/table.hpp"
+#include "flut/storage.hpp"
 #include <vector>
 
 namespace flut
-- 
2.43.0


From 7f344d8fa07a4ff48ecff28328610e67a2ff6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 10/74] fix: bounding_box.hpp includes vec3_type.hpp

---
 flut/math/bounding_box.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/math/bounding_box.hpp b/flut/math/bounding_box.hpp
index 677c4c8..4ed933d 100644
--- a/flut/math/bounding_box.hpp
+++ b/flut/math/bounding_box.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "flut/math/math.hpp"
+#include "flut/math/vec3_type.hpp"
 
 namespace flut
 {
-- 
2.43.0


From dec147cc65edd32dc02e3feb6778c23e7983cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 11/74] fix: bounds.hpp includes prop_node.hpp

---
 flut/math/bounds.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/math/bounds.hpp b/flut/math/bounds.hpp
index 6845b96..c3c2525 100644
--- a/flut/math/bounds.hpp
+++ b/flut/math/bounds.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "math.hpp"
+#include "flut/prop_node.hpp"
 
 namespace flut
 {
-- 
2.43.0


From 2604febb0fe2ec39d5de375219923d50b635b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 12/74] fix: IS_PROP_NODE_CONSTRUCTABLE can be expanded inside
 namespace flut with gcc

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index 8a26477..d84835c 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -255,7 +255,7 @@ namespace flut
 }
 
 #define IS_PROP_NODE_CONSTRUCTABLE( _class_name_ ) \
-template<> struct ::flut::is_prop_node_constructable< _class_name_ > { static const bool value = true; };
+template<> struct is_prop_node_constructable< _class_name_ > { static const bool value = true; };
 
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
-- 
2.43.0


From f01492e602b6b4338c9283885e5857bd2c13d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 13/74] fix: pattern_matcher::find_match compiles and returns
 the match

---
 flut/pattern_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/pattern_matcher.hpp b/flut/pattern_matcher.hpp
index 44b892c..5b27349 100644
--- a/flut/pattern_matcher.hpp
+++ b/flut/pattern_matcher.hpp
@@ -24,7 +24,8 @@ namespace flut
 		template< typename T > bool operator()( const T* str ) const { return operator()( static_cast< const string& >( *str ) ); }
 
 		template< typename It > It find_match( It begin, It end ) const {
-			while ( begin != end && !match( static_cast< const string& >( *begin ) ) ) ++begin;
+			while ( begin != end && !operator()( static_cast< const string& >( *begin ) ) ) ++begin;
+			return begin;
 		}
 
 		vector< string > patterns;
-- 
2.43.0


From 66fc7dd559ef4382ff87db796adf92c8a3ade3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 14/74] fix: circular_deque.hpp compiles with gcc and clang

---
 flut/circular_deque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index 39fcd52..c68d307 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -2,6 +2,8 @@
 
 #include "flut/dynarray.hpp"
 #include "flut/system/assert.hpp"
+#include <cstddef>
+#include <iterator>
 
 namespace flut
 {
@@ -53,7 +55,7 @@ namespace flut
 			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
-			difference_type operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
+			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
 			bool operator==( const iterator_impl< IT >& other ) { return other.index_ == index_; }
 			bool operator!=( const iterator_impl< IT >& other ) { return other.index_ != index_; }
 			IT& operator*() { return const_cast< IT& >( buffer_[ index_ % buffer_.size() ] ); }
-- 
2.43.0


From 3717d00d50ce65ecfef5a9b0d1bd30f2e3e72045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 15/74] fix: circular_frame_buffer.hpp compiles with gcc and
 clang

---
 flut/buffer/circular_frame_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index d4cf960..e47ac21 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -32,15 +32,15 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_count() - frame_buf_size_ && frame0 < frame_count() && channel < this->channel_count() );
-			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_count() + channel;
-			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_count() + channel;
+			flut_assert( frame0 >= frame_size() - frame_buf_size_ && frame0 < frame_size() && channel < this->channel_size() );
+			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_size() + channel;
+			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
 		}
 
 		/// access value (no bounds checking)
 		T& operator()( index_t frame, index_t channel ) { return data( frame % frame_buf_size_, channel ); }
-		const T& operator()( index_t frame, index_t channel ) const { data( frame % frame_buf_size_, channel ); }
+		const T& operator()( index_t frame, index_t channel ) const { return data( frame % frame_buf_size_, channel ); }
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { return data( ( frame_size_ - 1 ) % frame_buf_size_, channel ); }
-- 
2.43.0


From d14822e0eefccec39f4526d6d0efbf7b7b092d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 16/74] fix: sorted_vector::find returns an iterator to the
 element

---
 flut/sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/sorted_vector.hpp b/flut/sorted_vector.hpp
index 5f2b691..7b793c6 100644
--- a/flut/sorted_vector.hpp
+++ b/flut/sorted_vector.hpp
@@ -27,12 +27,12 @@ namespace flut
 
 		iterator find( const T& e ) {
 			auto it = std::lower_bound( begin(), end(), e );
-			return ( it != end() && *it == e ) ? *it : end();
+			return ( it != end() && *it == e ) ? it : end();
 		}
 
 		const_iterator find( const T& e ) const {
 			auto it = std::lower_bound( cbegin(), cend(), e );
-			return ( it != cend() && *it == e ) ? *it : cend();
+			return ( it != cend() && *it == e ) ? it : cend();
 		}
 	};
 }
-- 
2.43.0


From 2f4db9aae561b1dad85871fddc7441cf3aa5e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 17/74] fix: dynarray move leaves the source empty,
 self-assignment keeps the contents

---
 flut/dynarray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/dynarray.hpp b/flut/dynarray.hpp
index 2946f37..e8aa886 100644
--- a/flut/dynarray.hpp
+++ b/flut/dynarray.hpp
@@ -16,9 +16,9 @@ namespace flut
 		dynarray( size_t n ) : data_( new T[ n ] ), end_( data_.get() + n ) {}
 		dynarray( size_t n, const T& v ) : data_( new T[ n ] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[ o.size() ] ), end_( data_.get() + o.size() ) { std::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[ o.size() ] ); end_ = data_.get() + o.size(); std::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) { data_ = std::move( o.data() ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) { std::swap( data_, o.data_ ); std::swap( end_, o.end_ ); return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[ i ]; }
-- 
2.43.0


From 10dde5df16c88d2886caa41d80a5edf35062744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 18/74] fix: storage const accessors and labels() compile

---
 flut/storage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 9845f7b..680ab1a 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -78,13 +78,13 @@ namespace flut
 
 		/// access value of most recent frame
 		T& operator[]( index_t channel ) { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
-		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return *this( frame_size() - 1, channel ); }
+		const T& operator[]( index_t channel ) const { flut_assert( !data_.empty() ); return (*this)( frame_size() - 1, channel ); }
 
 		/// access value of most recent frame by channel name, add channel if not existing
 		T& operator[]( const L& label ) { return (*this)[ find_or_add_channel( label ) ]; }
 
 		/// access value of most recent frame by channel name
-		const T& operator()( const L& label ) const { return *this( find_channel( label ) ); }
+		const T& operator()( const L& label ) const { return (*this)[ find_channel( label ) ]; }
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( T frame_idx, index_t channel ) {
@@ -119,7 +119,7 @@ namespace flut
 			}
 		}
 
-		const std::vector< L >& labels() const { return labels_; }
+		const data_header< L >& labels() const { return labels_; }
 		const std::vector< T >& data() const { return data_; }
 
 	private:
-- 
2.43.0


From 9273485c0b01aff1563f8358b91fdebd5eba9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 19/74] fix: table const access by label compiles

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index a56292f..fe36965 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -57,7 +57,7 @@ namespace flut
 		const T& operator()( index_t row, index_t col ) const { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 		T& operator()( index_t row, index_t col ) { flut_assert( row < row_size() && col < column_size() ); return data_[ row * column_size() + col ]; }
 
-		const T& operator()( const L& row, const L& col ) const { return (*this)( row_index( row ), col_index( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return (*this)( row_labels_.find( row ), col_labels_.find( col ) ); }
 		T& operator()( const L& row, const L& col ) { return (*this)( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 	private:
-- 
2.43.0


From a7ea6011944cea70feeeced87d6e38364873334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 20/74] fix: table::resize writes out of bounds when rows are
 added, add_column ignores its default value

---
 flut/table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index fe36965..5a3dd3e 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,7 +22,7 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
-			resize( row_size(), column_size() + 1 );
+			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
 
@@ -36,14 +36,14 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols ) {
+		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data_.resize( row_size() * cols );
+			data_.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
-					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : T();
+					data_[ cols * ri + ci ] = ( ri < row_size() && ci < column_size() ) ? data_[ column_size() * ri + ci ] : default_value;
 			col_labels_.resize( cols );
 			row_labels_.resize( rows );
 		}
-- 
2.43.0


From 42346029d2b1b82b62b0f8eb81f20c87bf5d52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 21/74] fix: flag_set::clear( initializer_list ) compiles

---
 flut/flag_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/flag_set.hpp b/flut/flag_set.hpp
index dff4fc3..fc62922 100644
--- a/flut/flag_set.hpp
+++ b/flut/flag_set.hpp
@@ -27,7 +27,7 @@ namespace flut
 		template< EnumT index > flag_set& clear() { data &= ~storage_bit( index ); return *this; }
 
 		flag_set& set( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f ); return *this; }
-		flag_set& clear( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) clear( f ); return *this; }
+		flag_set& clear( std::initializer_list< EnumT > flags ) { for ( auto f : flags ) set( f, false ); return *this; }
 
 		void clear() { data = StorageT(0); }
 		bool any() const { return data != 0; }
-- 
2.43.0


From 580127a96dd081691c10b3cd85487694f21fd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 22/74] fix: vec4 operators include the w component

---
 flut/math/vec4.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flut/math/vec4.hpp b/flut/math/vec4.hpp
index d606987..a85ed73 100644
--- a/flut/math/vec4.hpp
+++ b/flut/math/vec4.hpp
@@ -16,31 +16,31 @@ namespace flut
 
 		/// Subtraction
 		template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+		{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 		/// Subtraction
 		template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+		{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 		/// Negation
 		template< typename T > vec4_<T> operator-( vec4_<T> v )
-		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+		{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 		/// Scalar multiplication
 		template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-		{ v.x *= s; v.y *= s; v.z *= s; return v; }
+		{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 		/// Scalar division
 		template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 		/// Scalar division
 		template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+		{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	}
 }
 
-- 
2.43.0


From 909ced2b6959f8b3fd3b55763a9f8d4cfa5f2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 23/74] fix: axis_angle_from_quat compiles for any value type

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 4fc115a..2649f8d 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -176,7 +176,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3f( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From 195de9e85896f0779f2c62f5555463d32d1e36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:06 +0000
Subject: [PATCH 24/74] fix: data_header keeps its label index in step with the
 labels

---
 flut/buffer/data_header.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/buffer/data_header.hpp b/flut/buffer/data_header.hpp
index 030c3ef..c92e3a7 100644
--- a/flut/buffer/data_header.hpp
+++ b/flut/buffer/data_header.hpp
@@ -11,8 +11,8 @@ namespace flut
 	struct data_header
 	{
 		data_header( size_t channels = 0 ) : labels_( channels ) {}
-		data_header( std::initializer_list< L > labels ) : labels_( labels ) {}
-		data_header( const std::vector< L >& labels ) : labels_( labels ) {}
+		data_header( std::initializer_list< L > labels ) : labels_( labels ) { init_indices(); }
+		data_header( const std::vector< L >& labels ) : labels_( labels ) { init_indices(); }
 		~data_header() {}
 
 		index_t add( const L& label ) {
@@ -35,8 +35,9 @@ namespace flut
 
 		index_t set( index_t idx, const L& label ) {
 			flut_assert( idx < size() && find( label ) == no_index );
+			if ( find( labels_[ idx ] ) == idx ) label_indices_.erase( labels_[ idx ] );
 			labels_[ idx ] = label;
-			label_indices_[ label ] = labels_.size() - 1;
+			label_indices_[ label ] = idx;
 			return idx;
 		}
 
@@ -44,6 +45,8 @@ namespace flut
 		typename vector< L >::const_iterator end() const { return labels_.end(); }
 
 	private:
+		void init_indices() { for ( index_t i = 0; i < labels_.size(); ++i ) label_indices_[ labels_[ i ] ] = i; }
+
 		std::vector< L > labels_;
 		std::unordered_map< L, index_t > label_indices_;
 	};
-- 
2.43.0


From 5735cdcb42e17a9ae03cb16e3221d92f2ac3a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 25/74] fix: circular_deque keeps its contents when it grows or
 is reserved while wrapped, const back() returns the last element

---
 flut/circular_deque.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flut/circular_deque.hpp b/flut/circular_deque.hpp
index c68d307..5c4303c 100644
--- a/flut/circular_deque.hpp
+++ b/flut/circular_deque.hpp
@@ -18,7 +18,10 @@ namespace flut
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) {
+				if ( front_ == 0 ) buffer_.push_back( value );
+				else buffer_.insert( buffer_.begin() + front_++, value );
+			}
 			else back() = value;
 		}
 		void push_front( const T& value ) {
@@ -33,7 +36,7 @@ namespace flut
 		void pop_front() { flut_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
-		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ ) % capacity() ]; }
+		const T& back() const { flut_assert( size_ > 0 ); return buffer_[ ( front_ + size_ - 1 ) % capacity() ]; }
 
 		T& front() { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
 		const T& front() const { flut_assert( size_ > 0 ); return buffer_[ front_ ]; }
@@ -44,7 +47,11 @@ namespace flut
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
+			front_ = 0;
+			buffer_.resize( std::max( s, size_ ) );
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl : public std::iterator< std::forward_iterator_tag, IT >
@@ -52,7 +59,7 @@ namespace flut
 			using value_type = IT;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this;  }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			std::ptrdiff_t operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From 014b6c9f722c405857b1f19c5d1342428c7e7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 26/74] fix: circular_frame_buffer bounds check underflows
 while the buffer fills, add_channel discards the frame capacity

---
 flut/buffer/circular_frame_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index e47ac21..4fe5ae3 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_size(), channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
@@ -32,7 +32,7 @@ namespace flut
 
 		/// get the interpolated value of a specific frame / channel
 		T get_interpolated_value( index_t frame0, index_t channel, T pos ) {
-			flut_assert( frame0 >= frame_size() - frame_buf_size_ && frame0 < frame_size() && channel < this->channel_size() );
+			flut_assert( frame0 + frame_buf_size_ >= frame_size() && frame0 < frame_size() && channel < this->channel_size() );
 			index_t ofs0 = ( frame0 % frame_buf_size_ ) * this->channel_size() + channel;
 			index_t ofs1 = ( ( frame0 + 1 ) % frame_buf_size_ ) * this->channel_size() + channel;
 			return ( T(1) - pos ) * data_[ ofs0 ] + pos * data_[ ofs1 ];
@@ -52,11 +52,11 @@ namespace flut
 
 		/// access value with bounds checking
 		T& at( index_t frame, index_t channel ) {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 		const T& at( index_t frame, index_t channel ) const {
-			flut_assert( frame >= frame_size() - frame_buf_size_ && frame < frame_size() && channel < channel_size() );
+			flut_assert( frame + frame_buf_size_ >= frame_size() && frame < frame_size() && channel < channel_size() );
 			return data( frame % frame_buf_size_, channel );
 		}
 
-- 
2.43.0


From eb91410a2c2adb0d9b6b1ec0a0fd1a020a2a5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 27/74] fix: delayers initialize all samples with init_value

---
 flut/math/delayer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flut/math/delayer.hpp b/flut/math/delayer.hpp
index 6af8783..fdd222c 100644
--- a/flut/math/delayer.hpp
+++ b/flut/math/delayer.hpp
@@ -1,13 +1,15 @@
 #pragma once
 
 #include <array>
+#include "flut/system/types.hpp"
 
 namespace flut
 {
 	template< typename T, int N = 2 >
 	struct delayer
 	{
-		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), data_{ init_value }, idx_( 0 ), time_( 0 ) {
+		delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 1 ) ), idx_( 0 ), time_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
@@ -37,7 +39,8 @@ namespace flut
 	template< typename T, int N = 2 >
 	struct smooth_delayer
 	{
-		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), data_{ init_value }, idx_( 0 ), time_( 0 ), inter_( 0 ) {
+		smooth_delayer( float delay = 1.0f, const T& init_value = T() ) : window_( delay / ( N - 0.5f ) ), idx_( 0 ), time_( 0 ), inter_( 0 ) {
+			data_.fill( init_value );
 			static_assert( N >= 2, "flut::delayer resolution parameter must be >= 2" );
 		}
 
-- 
2.43.0


From fefbdebdf199a73225cf49dbf7029be3edff2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 28/74] fix: math::soft_clamp returns a reference like clamp,
 as bounds::soft_clamp requires

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 8f76dee..2ff6bbf 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -83,7 +83,7 @@ namespace flut
 		template< typename T > T limit_transfer( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 		/// clamp with smooth boundary transformation
-		template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+		template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 			auto r = boundary * ( max - min );
 			if ( v > max - r ) v = max - r + limit_transfer( v - max + r, r );
 			else if ( v < min + r )	v = min + r - limit_transfer( min + r - v, r );
-- 
2.43.0


From 07b0ab4262fac17c37e43c32c6e43db7e6f692f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 29/74] fix: square_wave has period 2 for negative values as
 well

---
 flut/math/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/math.hpp b/flut/math/math.hpp
index 2ff6bbf..4d6fab6 100644
--- a/flut/math/math.hpp
+++ b/flut/math/math.hpp
@@ -108,6 +108,6 @@ namespace flut
 		template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
 		/// square wave, period = 2, min = -1, max = 1
-		template< typename T > T square_wave( T v ) { return fmod( v, T(2) ) < T(1) ? T(1) : T(-1); }
+		template< typename T > T square_wave( T v ) { return v - T(2) * floor( v / T(2) ) < T(1) ? T(1) : T(-1); }
 	}
 }
-- 
2.43.0


From 46a410e03c5befded22d9072c1f645b49b3299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 30/74] fix: catmull_rom evaluates the segment that contains t

---
 flut/math/catmull_rom.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/catmull_rom.hpp b/flut/math/catmull_rom.hpp
index 2c9042d..bed5e1e 100644
--- a/flut/math/catmull_rom.hpp
+++ b/flut/math/catmull_rom.hpp
@@ -72,8 +72,8 @@ namespace flut
 		}
 
 		P operator()( T t ) {
-			auto it = std::lower_bound( times_.begin(), times_.end(), t );
-			if ( it == times_.end() ) it = times_.begin();
+			auto it = std::upper_bound( times_.begin(), times_.end(), t );
+			if ( it != times_.begin() ) --it;
 			if ( it == times_.end() - 1 ) it = times_.end() - 2;
 			size_t index = it - times_.begin();
 			return segments_[ index ]( ( t - *it ) / ( *( it + 1 ) - *it ) );
-- 
2.43.0


From 5f78d505b3d699c0c1a319e3c8e0b19f909cfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 31/74] fix: rotation angle of a quaternion is NaN when
 rounding puts w outside -1..1

---
 flut/math/quat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 2649f8d..c7d3837 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -162,7 +162,7 @@ namespace flut
 			T l = sqrt( q.x * q.x + q.y * q.y + q.z * q.z );
 			if ( l > constants<T>::epsilon() )
 			{
-				T f = T(2) * std::acos( q.w ) / l;
+				T f = T(2) * std::atan2( l, q.w ) / l;
 				return vec3_<T>( f * q.x, f * q.y, f * q.z );
 			}
 			else return vec3_<T>::zero();
@@ -176,7 +176,7 @@ namespace flut
 			if ( l > constants<T>::epsilon() )
 			{
 				T s = T(1) / l;
-				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::acos( q.w ) ) };
+				return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>( s * q.x, s * q.y, s * q.z ), radian_<T>( T(2) * std::atan2( l, q.w ) ) };
 			}
 			else return std::pair< vec3_<T>, radian_<T> >{ vec3_<T>::unit_x(), radian_<T>( T() ) };
 		}
-- 
2.43.0


From 767931ec74706b1ba83f745ce6171a81631c1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 32/74] fix: quat_from_directions handles opposite directions
 for any source

---
 flut/math/quat.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index c7d3837..81fa779 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -141,11 +141,14 @@ namespace flut
 				return quat_<T>::identity();
 
 			auto clen = length( c );
-			if ( equals( clen, T() ) ) // check if vectors are 180 deg apart
-				return quat_<T>( 0, 1, 0, 0 ); // this doesn't work if source is unit_x
+			if ( equals( clen, T() ) ) { // check if vectors are 180 deg apart
+				// rotate 180 deg around any axis perpendicular to source
+				c = normalized( cross_product( s, std::abs( s.x ) < T(0.5) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() ) );
+				return quat_<T>( 0, c.x, c.y, c.z );
+			}
 
 			c /= clen;
-			auto a = std::acos( d ) * T(0.5);
+			auto a = std::atan2( clen, d ) * T(0.5);
 			auto sa = std::sin( a );
 
 			return quat_<T>( std::cos( a ), c.x * sa, c.y * sa, c.z * sa );
-- 
2.43.0


From d663c4c53f2c8c8c69a28e4945a9e84cdc2ab304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 33/74] fix: str_ends_with considers the last occurrence of the
 substring

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index 23052ea..fbe9d86 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -32,7 +32,7 @@ namespace flut
 
 	/// check if a string ends with a string
 	inline bool str_ends_with( const string& str, const string& substr )
-	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.find( substr ) == s1 - s2 ); }
+	{ auto s1 = str.size(), s2 = substr.size(); return s1 >= s2 && ( str.compare( s1 - s2, s2, substr ) == 0 ); }
 
 	/// remove leading and trailing spaces and newlines
 	FLUT_API string trim_str( const string& str, const char* trim_chars = " \t\r\n\f\v" );
-- 
2.43.0


From 04642c662819e4b3bb447da73bfd803f17853d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 34/74] fix: right_str clamps n to the string size, like
 left_str

---
 flut/string_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.hpp b/flut/string_tools.hpp
index fbe9d86..43740b1 100644
--- a/flut/string_tools.hpp
+++ b/flut/string_tools.hpp
@@ -22,7 +22,7 @@ namespace flut
 
 	/// get right n characters, if n is negative, get string WITHOUT the right n characters
 	inline string right_str( const string& str, int n )
-	{ if ( n >= 0 ) return str.substr( str.size() - n, string::npos ); else return str.substr( size_t( -n ), string::npos ); }
+	{ if ( n >= 0 ) return str.substr( str.size() - std::min( str.size(), size_t( n ) ) ); else return str.substr( std::min( str.size(), size_t( -n ) ) ); }
 
 	/// get index of a substring in a string
 	inline index_t in_str( const string& str, const string& substr, index_t p = 0 ) { return str.find( substr, p ); }
-- 
2.43.0


From 40a77ffc6251ed902581de2215b1a6298e97d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 35/74] fix: quoting no longer treats bytes >= 128 as control
 characters

---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 581193b..784f271 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -105,7 +105,7 @@ namespace flut
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -157,7 +157,7 @@ namespace flut
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -168,7 +168,7 @@ namespace flut
 	FLUT_API bool needs_quotes( const string& s )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || c == '\\' )
+			if ( (unsigned char)c < 33 || c == '\"' || c == '\\' )
 				return true;
 		return false;
 	}
-- 
2.43.0


From ed9438f27aedcda9f12fb8cb8235844f61ed5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 36/74] fix: decode_char consumes a trailing backslash,
 get_token no longer loops forever on it

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 784f271..ea15bbe 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -121,7 +121,7 @@ namespace flut
 	FLUT_API char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		flut_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 87cbcb95dd801b5e2acaf10f0267b4f8dcd461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 37/74] fix: try_unquoted reads out of bounds if the last quote
 is escaped or the only character

---
 flut/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index ea15bbe..0e83ca2 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -182,16 +182,16 @@ namespace flut
 
 	FLUT_API string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() - 1 && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
 				int len;
-				sout += decode_char( &( *it ), s.end() - it, &len );
+				sout += decode_char( &( *it ), s.end() - 1 - it, &len );
 				it += ( len - 1 );
 			}
 			else sout += *it;
-- 
2.43.0


From 3f8511ab766ee809b3fa6d8ef28db00f35a94ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 38/74] fix: stringf no longer truncates its result to 255
 characters

---
 flut/string_tools.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 0e83ca2..48eb70c 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -74,10 +74,15 @@ namespace flut
 #endif
 		va_list args;
 		va_start( args, format );
-		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		int len = vsnprintf( nullptr, 0, format, args );
 		va_end( args );
-		return string( buf );
+		if ( len <= 0 ) return string();
+
+		vector< char > buf( size_t( len ) + 1 );
+		va_start( args, format );
+		vsnprintf( buf.data(), buf.size(), format, args );
+		va_end( args );
+		return string( buf.data(), size_t( len ) );
 #ifdef FLUT_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 4efe99c09b0980907eb848799ed50b5f2f7e1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 39/74] fix: formatted log messages are no longer truncated to
 1023 characters

---
 flut/system/log.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flut/system/log.cpp b/flut/system/log.cpp
index 3e54fec..72ecc72 100644
--- a/flut/system/log.cpp
+++ b/flut/system/log.cpp
@@ -21,9 +21,15 @@ namespace flut
 		{
 			if ( test_log_level( l ) )
 			{
-				char buf[ 1024 ];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // TODO: use string_view
+				va_list list_copy;
+				va_copy( list_copy, list );
+				int len = vsnprintf( nullptr, 0, format, list_copy );
+				va_end( list_copy );
+				if ( len < 0 ) return;
+
+				std::vector< char > buf( size_t( len ) + 1 );
+				vsnprintf( buf.data(), buf.size(), format, list );
+				log_string( l, string( buf.data(), size_t( len ) ) ); // TODO: use string_view
 			}
 		}
 
-- 
2.43.0


From 253315afd16ebf3ef90f24b12abd926baed1ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 40/74] fix: get_filename_folder returns an empty string if
 there is no folder

---
 flut/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/string_tools.cpp b/flut/string_tools.cpp
index 48eb70c..3a51ada 100644
--- a/flut/string_tools.cpp
+++ b/flut/string_tools.cpp
@@ -226,7 +226,7 @@ namespace flut
 	{
 		size_t n = str.find_last_of( "/\\" );
 		if ( n != string::npos ) return str.substr( 0, n + 1 );
-		else return str;
+		else return string();
 	}
 
 	FLUT_API string get_filename_without_folder( const string& str )
-- 
2.43.0


From 4ef169f3797ff4ea2ce321002b380c4c2efe4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 41/74] fix: get_token returns an empty quoted token that is
 followed by an operator

---
 flut/char_stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index c934ab5..f24b05c 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -40,6 +40,7 @@ namespace flut
 	flut::string char_stream::get_token( const char* operators, const char* quotations )
 	{
 		string s;
+		bool has_quotes = false;
 		cur_pos_end = const_cast< char* >( cur_pos );
 		while ( good() )
 		{
@@ -53,6 +54,7 @@ namespace flut
 			else if ( strchr( quotations, *cur_pos_end ) )
 			{
 				// this is a part between quotes and must be decoded
+				has_quotes = true;
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
 				while ( good() )
@@ -76,7 +78,7 @@ namespace flut
 			else if ( strchr( operators, *cur_pos_end ) )
 			{
 				// operator
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !has_quotes )
 					s = *cur_pos_end++; // token is an operator
 				else s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
-- 
2.43.0


From c7761ac397398095478bb6f003cebcb6c2bab8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 42/74] fix: path extension is not taken from a folder name

---
 flut/system/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2004c7..d2df884 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -11,8 +11,8 @@ namespace flut
 
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
-		if ( n != string::npos ) data_.erase( n ); // remove existing extension
+		size_t n = data_.find_last_of( "./\\" );
+		if ( n != string::npos && data_[ n ] == '.' ) data_.erase( n ); // remove existing extension
 
 		if ( !ext.empty() )
 			data_ += '.' + ext.data_;
@@ -49,8 +49,8 @@ namespace flut
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		size_t n = data_.find_last_of( "./\\" );
+		return n != string::npos && data_[ n ] == '.' ? path( data_.substr( n + 1 ) ) : path();
 	}
 
 	path path::filename() const
-- 
2.43.0


From a3c38802b4924af06a86589e3681dd90ad1b09f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 43/74] fix: path::filename of a path without folder is the
 path itself

---
 flut/system/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index d2df884..84caa7a 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -56,7 +56,7 @@ namespace flut
 	path path::filename() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
+		return n != string::npos ? path( data_.substr( n + 1 ) ) : *this;
 	}
 
 	path path::stem() const
-- 
2.43.0


From d896000033f6098b3d8e21df9caf7a1d35c34bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 44/74] fix: copy_file leaves the destination alone if the
 source cannot be read

---
 flut/filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index eff1439..35c45cd 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -69,8 +69,9 @@ namespace flut
 		if ( overwrite || !file_exists( to ) )
 		{
 			std::ifstream src( from.str(), std::ios::binary );
+			if ( !src.good() ) return false;
 			std::ofstream dst( to.str(), std::ios::binary );
-			if ( src.good() && dst.good() )
+			if ( dst.good() )
 			{
 				dst << src.rdbuf();
 				return true;
-- 
2.43.0


From abdaaaa9cc453f5cee33af9b2f63e0054eee19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:30 +0000
Subject: [PATCH 45/74] fix: version parses strings without a build number

---
 flut/system/version.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/system/version.hpp b/flut/system/version.hpp
index 78409e9..368c519 100644
--- a/flut/system/version.hpp
+++ b/flut/system/version.hpp
@@ -11,11 +11,11 @@ namespace flut
 		version( int maj, int min, int bugfix, int bld = 0, string post = "" ) :
 			major( maj ), minor( min ), patch( bugfix ), build( bld ), postfix( post ) {}
 
-		version( const string& version ) {
+		version( const string& version ) : major( 0 ), minor( 0 ), patch( 0 ), build( 0 ) {
 			std::stringstream str( version );
 			char dummy;
-			str >> major >> dummy >> minor >> dummy >> patch >> dummy;
-			if ( str.good() ) str >> build;
+			str >> major >> dummy >> minor >> dummy >> patch;
+			if ( str.peek() == '.' ) str >> dummy >> build;
 			if ( str.good() ) str >> postfix;
 		}
 
-- 
2.43.0


From 17911aa001740da980614c7e13b401a49e6eaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:30 +0000
Subject: [PATCH 46/74] fix: profiler compares section names by value

---
 flut/system/profiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index eef7885..a598f5d 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -1,5 +1,6 @@
 ﻿#include "profiler.hpp"
 #include <algorithm>
+#include <cstring>
 #include <thread>
 
 namespace flut
@@ -50,7 +51,7 @@ namespace flut
 
 	flut::profiler::section* profiler::find_section( const char* name, size_t parent_id )
 	{
-		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return s.name == name && s.parent_id == parent_id; } );
+		auto it = std::find_if( sections_.begin() + parent_id + 1, sections_.end(), [&]( section& s ) { return strcmp( s.name, name ) == 0 && s.parent_id == parent_id; } );
 		return it != sections_.end() ? &( *it ) : nullptr;
 	}
 
-- 
2.43.0


From 1b571f6b7f5cd4c3dc4008dda89698f2e71467a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 47/74] fix: prop parser handles indentation with spaces and
 empty comments

---
 flut/prop_node_tools.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 2a53d85..e5d5cb0 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -102,19 +102,25 @@ namespace flut
 		return ( s.size() > 0 && isalpha( s[ 0 ] ) );
 	}
 
-	string get_prop_token( char_stream& str )
+	// skip white space and comments, returns the next character
+	char peek_prop_char( char_stream& str )
 	{
-		while ( true )
+		while ( str.good() )
 		{
-			string t = str.get_token( "={}%", "\"'" );
-			if ( t == "%" )
-			{
-				// comment: skip rest of line
-				str.get_line();
-				continue;
-			}
-			else return trim_str( t );
+			char c = str.peekc();
+			if ( c == '%' )
+				str.get_line(); // comment: skip rest of line
+			else if ( c == ';' || isspace( (unsigned char)c ) )
+				str.getc();
+			else return c;
 		}
+		return 0;
+	}
+
+	string get_prop_token( char_stream& str )
+	{
+		peek_prop_char( str );
+		return trim_str( str.get_token( "={}%", "\"'" ) );
 	}
 
 	void read_prop_node( char_stream& str, prop_node& parent )
-- 
2.43.0


From 92134549c8f533eb14ac2c553fa25397859f4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 48/74] fix: prop values and labels that contain prop syntax or
 surrounding white space survive save and load

---
 flut/prop_node_tools.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index e5d5cb0..78c5846 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -119,8 +119,10 @@ namespace flut
 
 	string get_prop_token( char_stream& str )
 	{
-		peek_prop_char( str );
-		return trim_str( str.get_token( "={}%", "\"'" ) );
+		char c = peek_prop_char( str );
+		if ( c == '\"' || c == '\'' )
+			return str.get_token( "={}% ", "\"'" ); // quoted token ends after the quotes
+		else return trim_str( str.get_token( "={}%", "\"'" ) );
 	}
 
 	void read_prop_node( char_stream& str, prop_node& parent )
@@ -218,15 +220,20 @@ namespace flut
 		}
 	}
 
+	string try_prop_quoted( const string& s )
+	{
+		return s.find_first_of( "={}%;'" ) != string::npos ? quoted( s ) : try_quoted( s );
+	}
+
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
 		string newline = readable ? "\n" : " ";
 		string assign = readable ? " = " : "=";
 
-		str << indent << try_quoted( label );
+		str << indent << try_prop_quoted( label );
 		if ( pn.has_value() || pn.empty() )
-			str << assign << ( pn.empty() ? "\"\"" : try_quoted( pn.get_value() ) );
+			str << assign << ( pn.empty() ? "\"\"" : try_prop_quoted( pn.get_value() ) );
 		str << newline;
 		if ( pn.size() > 0 )
 		{
-- 
2.43.0


From 47010dcd6dc20624d3fc32e3fc8abc12aa131868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 49/74] fix: prop parser reads nodes with both a value and
 children, as written by save_prop

---
 flut/prop_node_tools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 78c5846..1c483f0 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -131,8 +131,11 @@ namespace flut
 		if ( t == "=" )
 		{
 			parent.set_value( get_prop_token( str ) );
+			if ( peek_prop_char( str ) == '{' )
+				t = get_prop_token( str ); // node has both value and children
 		}
-		else if ( t == "{" )
+
+		if ( t == "{" )
 		{
 			while ( str.good() && t != "}" )
 			{
-- 
2.43.0


From d86620a2bd30deff31c827c01707cd9f74e6c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 50/74] fix: save_prop with readable = false writes separators
 that the parser recognizes

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 1c483f0..f9c4600 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -231,7 +231,7 @@ namespace flut
 	void write_prop_none( std::ostream& str, const string& label, const prop_node& pn, int level, bool readable )
 	{
 		string indent = readable ? string( level, '\t' ) : "";
-		string newline = readable ? "\n" : " ";
+		string newline = readable ? "\n" : ";";
 		string assign = readable ? " = " : "=";
 
 		str << indent << try_prop_quoted( label );
-- 
2.43.0


From 72545bb4c5c86e5e13dbfecad4ab803b37383073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 51/74] fix: parse_prop reports errors through error_code if
 provided

---
 flut/prop_node_tools.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index f9c4600..0e3d56c 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -150,14 +150,23 @@ namespace flut
 
 	prop_node parse_prop( char_stream& str, error_code* ec )
 	{
-		prop_node root;
-		string t = get_prop_token( str );
-		while ( is_valid_prop_label( t ) )
+		try
+		{
+			prop_node root;
+			string t = get_prop_token( str );
+			while ( is_valid_prop_label( t ) )
+			{
+				read_prop_node( str, root.push_back( t ) );
+				t = get_prop_token( str );
+			}
+			return root;
+		}
+		catch ( std::exception& e )
 		{
-			read_prop_node( str, root.push_back( t ) );
-			t = get_prop_token( str );
+			if ( try_set_error( ec, e.what() ) )
+				return prop_node();
+			else throw;
 		}
-		return root;
 	}
 
 	FLUT_API prop_node parse_prop( const char* str, error_code* ec )
-- 
2.43.0


From da250f0d575444f304826a6feb83a0e15454ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 52/74] fix: load_ini no longer skips the line after a comment

---
 flut/prop_node_tools.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 0e3d56c..757e19b 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -197,10 +197,7 @@ namespace flut
 				continue;
 
 			if ( line[0] == '#' ) // comment
-			{
-				str.get_line();
 				continue;
-			}
 
 			if ( line.size() > 2 && line[ 0 ] == '[' && line[ line.size() -1 ] == ']' )
 			{
-- 
2.43.0


From dce23b4b2423c6a893dfcf743b5f62ed47be1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:09 +0000
Subject: [PATCH 53/74] fix: save_ini writes main items before groups, so they
 are not read back as part of a group

---
 flut/prop_node_tools.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 757e19b..45e9d0c 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -216,6 +216,12 @@ namespace flut
 	FLUT_API void save_ini( const prop_node& pn, const path& filename )
 	{
 		std::ofstream str( filename.str() );
+		for ( auto& e : pn )
+		{
+			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+				str << e.first << "=" << e.second.get_value() << std::endl;
+		}
+
 		for ( auto& e : pn )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -224,8 +230,6 @@ namespace flut
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_value() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_value() << std::endl;
 		}
 	}
 
-- 
2.43.0


From 16bf15b03408d2593b54e9858803d81f11701d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:25 +0000
Subject: [PATCH 54/74] fix: storage: reject negative frame positions when
 interpolating

---
 flut/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 680ab1a..8845ebd 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -91,7 +91,7 @@ namespace flut
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-			flut_assert( frame0 + 1 < frame_size() );
+			flut_assert( frame_f >= 0 && frame0 + 1 < frame_size() );
 			index_t ofs = frame0 * this->channel_size() + channel;
 			return ( T(1) - frame_w ) * data_[ ofs ] + frame_w * data_[ ofs + this->channel_size() ];
 		}
-- 
2.43.0


From 5391a3a59b29792d446b1d311dde3bdd0061679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:15 +0000
Subject: [PATCH 55/74] fix: quat_from_directions: treat nearly opposite
 directions as opposite

---
 flut/math/quat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/math/quat.hpp b/flut/math/quat.hpp
index 81fa779..50d0eec 100644
--- a/flut/math/quat.hpp
+++ b/flut/math/quat.hpp
@@ -141,7 +141,7 @@ namespace flut
 				return quat_<T>::identity();
 
 			auto clen = length( c );
-			if ( equals( clen, T() ) ) { // check if vectors are 180 deg apart
+			if ( equals( d, T(-1) ) ) { // check if vectors are 180 deg apart
 				// rotate 180 deg around any axis perpendicular to source
 				c = normalized( cross_product( s, std::abs( s.x ) < T(0.5) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() ) );
 				return quat_<T>( 0, c.x, c.y, c.z );
-- 
2.43.0


From 2923acb59e71a5aa84dfc015d7fec098c42c8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:39 +0000
Subject: [PATCH 56/74] fix: profiler thread id is initialized before the
 profiler instance that sets it

---
 flut/system/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/profiler.cpp b/flut/system/profiler.cpp
index a598f5d..f52b774 100644
--- a/flut/system/profiler.cpp
+++ b/flut/system/profiler.cpp
@@ -5,8 +5,8 @@
 
 namespace flut
 {
+	std::thread::id instance_thread_; // must be defined before instance_, which sets it
 	profiler profiler::instance_;
-	std::thread::id instance_thread_;
 
 	profiler::profiler()
 	{
-- 
2.43.0


From 78318d5b50b9bac7c95a0597ecb398979b5b2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:39 +0000
Subject: [PATCH 57/74] fix: load_xml rethrows the parse error instead of a
 sliced copy without message

---
 flut/prop_node_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 45e9d0c..b65215c 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -85,7 +85,7 @@ namespace flut
 		{
 			if ( try_set_error( ec, e.what() ) )
 				return prop_node();
-			else throw e;
+			else throw;
 		}
 	}
 
-- 
2.43.0


From b36787840f2379b096347b105162c09c87c7559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:26 +0000
Subject: [PATCH 58/74] fix: parse_prop reports an invalid top-level label
 instead of dropping the rest of the text

---
 flut/prop_node_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index b65215c..9b1fc6d 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -153,11 +153,11 @@ namespace flut
 		try
 		{
 			prop_node root;
-			string t = get_prop_token( str );
-			while ( is_valid_prop_label( t ) )
+			while ( peek_prop_char( str ) != 0 )
 			{
+				string t = get_prop_token( str );
+				flut_error_if( !is_valid_prop_label( t ), "Invalid token: " + t );
 				read_prop_node( str, root.push_back( t ) );
-				t = get_prop_token( str );
 			}
 			return root;
 		}
-- 
2.43.0


From af14c7a811d2b986aea3492754b67af78de9f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:36 +0000
Subject: [PATCH 59/74] fix: irange_step ends at the first value that reaches
 or passes its end

---
 flut/math/irange.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flut/math/irange.hpp b/flut/math/irange.hpp
index 6d4ce68..f049670 100644
--- a/flut/math/irange.hpp
+++ b/flut/math/irange.hpp
@@ -51,7 +51,13 @@ namespace flut
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		iterator end() const {
+			// first value in steps from begin that reaches or passes the end
+			if ( ( end_ < begin_ ) != ( step_ < T( 0 ) ) ) return begin();
+			T n = ( end_ - begin_ ) / step_;
+			if ( begin_ + n * step_ != end_ ) ++n;
+			return iterator( begin_ + n * step_, step_ );
+		}
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From aa8a4eb7d7fe0e7086267d395b0cc16aeb2d59b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:13 +0000
Subject: [PATCH 60/74] fix: a prop_node can be assigned from its own
 descendant or ancestor

---
 flut/prop_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/prop_node.hpp b/flut/prop_node.hpp
index d84835c..9995fd8 100644
--- a/flut/prop_node.hpp
+++ b/flut/prop_node.hpp
@@ -47,7 +47,7 @@ namespace flut
 		~prop_node() {}
 
 		/// assignment operators
-		prop_node& operator=( const prop_node& other ) { value = other.value; children = other.children; return *this; }
+		prop_node& operator=( const prop_node& other ) { container_t c( other.children ); value = other.value; children = std::move( c ); return *this; }
 		prop_node& operator=( prop_node&& other ) { value = std::move( other.value ); children = std::move( other.children ); return *this; }
 		template< typename T > prop_node& operator=( const T& v ) { *this = prop_node_cast<T>::to( v ); return *this; }
 
-- 
2.43.0


From 896e6cd168bcb718931159b7546eda85800e6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:13 +0000
Subject: [PATCH 61/74] fix: table::resize copes with a default value that is
 one of its own cells

---
 flut/table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/table.hpp b/flut/table.hpp
index 5a3dd3e..8702c50 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -36,7 +36,7 @@ namespace flut
 			return idx == no_index ? add_column( label, default_value ) : idx;
 		}
 
-		void resize( size_t rows, size_t cols, const T& default_value = T() ) {
+		void resize( size_t rows, size_t cols, T default_value = T() ) {
 			flut_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-- 
2.43.0


From b2a1b745ccba3d9b887fa1458629042cf34c6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:13 +0000
Subject: [PATCH 62/74] fix: merge_prop_nodes copes with a source that is part
 of the target

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 9b1fc6d..5fcd109 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -271,7 +271,8 @@ namespace flut
 
 	void merge_prop_nodes( prop_node& pn, const prop_node& other, bool overwrite )
 	{
-		for ( auto& o : other )
+		const prop_node source( other ); // other can be a part of pn
+		for ( auto& o : source )
 		{
 			auto it = pn.find( o.first );
 			if ( it == pn.end() )
-- 
2.43.0


From 9f6ba33476b5c6a04e4d7f78b6526e5a41f23b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 63/74] fix: save_prop reports a failed write

---
 flut/prop_node_tools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/prop_node_tools.cpp b/flut/prop_node_tools.cpp
index 5fcd109..cbeab2f 100644
--- a/flut/prop_node_tools.cpp
+++ b/flut/prop_node_tools.cpp
@@ -264,7 +264,8 @@ namespace flut
 		{
 			for ( auto& node : pn )
 				write_prop_none( str, node.first, node.second, 0, readable );
-			return true;
+			str.flush();
+			return str.good();
 		}
 		else return false;
 	}
-- 
2.43.0


From 0c1c6badee96b292f29c63ee6e049a8492485650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 64/74] fix: copy_file onto itself keeps the file, folders and
 failed writes are reported

---
 flut/filesystem.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 35c45cd..3bbcfe7 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -70,11 +70,18 @@ namespace flut
 		{
 			std::ifstream src( from.str(), std::ios::binary );
 			if ( !src.good() ) return false;
+			struct stat from_info, to_info;
+			if ( stat( from.c_str(), &from_info ) != 0 || S_ISDIR( from_info.st_mode ) )
+				return false;
+			if ( stat( to.c_str(), &to_info ) == 0 && from_info.st_dev == to_info.st_dev && from_info.st_ino == to_info.st_ino )
+				return true; // same file, opening it for writing would lose the contents
 			std::ofstream dst( to.str(), std::ios::binary );
 			if ( dst.good() )
 			{
-				dst << src.rdbuf();
-				return true;
+				if ( src.peek() != std::ifstream::traits_type::eof() )
+					dst << src.rdbuf();
+				dst.close();
+				return dst.good();
 			}
 		}
 		return false;
-- 
2.43.0


From 5ea9d5eceb9ab1b0bcedd7e70208d3e41460f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 65/74] fix: a folder is not a file for file_exists and
 load_string

---
 flut/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index 3bbcfe7..eb5235b 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -101,7 +101,7 @@ namespace flut
 	FLUT_API bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !folder_exists( file );
 	}
 
 	FLUT_API bool folder_exists( const path& folder )
@@ -154,7 +154,7 @@ namespace flut
 	{
 		// this method uses a stringbuf, which may be slower but is more stable
 		std::ifstream ifstr( filename.str() );
-		if ( !ifstr.good() )
+		if ( !ifstr.good() || folder_exists( filename ) )
 		{
 			if ( try_set_error( ec, "Could not open " + filename.str() ) )
 				return "";
-- 
2.43.0


From 3c63eb33ae40d935a524077b0628f79652474ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 66/74] fix: flut_do_periodic declares its counter as an int

---
 flut/system/log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/log.hpp b/flut/system/log.hpp
index 98f4217..68b8ed5 100644
--- a/flut/system/log.hpp
+++ b/flut/system/log.hpp
@@ -18,7 +18,7 @@
 #define FLUT_LOG_LEVEL_CRITICAL 6
 #define FLUT_LOG_LEVEL_NONE 7
 
-#define flut_do_periodic( interval_, statement_ ) { static local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
+#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
 
 #define flut_logvar( var_ ) flut::log::trace( #var_"=", var_ )
 #define flut_logvar2( var1_, var2_ ) flut::log::trace( #var1_"=", var1_, "\t", #var2_"=", var2_ )
-- 
2.43.0


From b1e2d8c8615f69e7ede508ca463f47de47934012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 67/74] fix: table::add_column leaves the table as it was when
 the label is taken

---
 flut/table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flut/table.hpp b/flut/table.hpp
index 8702c50..b33812d 100644
--- a/flut/table.hpp
+++ b/flut/table.hpp
@@ -22,6 +22,7 @@ namespace flut
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
+			flut_assert( col_labels_.find( label ) == no_index );
 			resize( row_size(), column_size() + 1, default_value );
 			return col_labels_.set( column_size() - 1, label );
 		}
-- 
2.43.0


From 2fa005a2b29bda34e599f9935c3d42b0bdbd5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 68/74] fix: storage::add_channel leaves the storage as it was
 when the label is taken

---
 flut/storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 8845ebd..08845d7 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -17,10 +17,11 @@ namespace flut
 		~storage() {}
 
 		/// add a channel and resize buffer if needed
-		index_t add_channel( L label, const T& value = T() ) { resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label, const T& value = T() ) { flut_assert( labels_.find( label ) == no_index ); resize( frame_size(), channel_size() + 1, value ); return labels_.set( channel_size() - 1, label ); }
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
+			flut_assert( labels_.find( label ) == no_index );
 			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
-- 
2.43.0


From 5dab15138516eb073541c862f3518093c8dc1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 69/74] fix: circular_frame_buffer::add_channel leaves the
 buffer as it was when the label is taken

---
 flut/buffer/circular_frame_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/buffer/circular_frame_buffer.hpp b/flut/buffer/circular_frame_buffer.hpp
index 4fe5ae3..4e1e4c9 100644
--- a/flut/buffer/circular_frame_buffer.hpp
+++ b/flut/buffer/circular_frame_buffer.hpp
@@ -13,7 +13,7 @@ namespace flut
 		~circular_frame_buffer() {}
 
 		/// add a channel
-		index_t add_channel( L label ) { resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
+		index_t add_channel( L label ) { flut_assert( labels_.find( label ) == no_index ); resize_buffer( frame_buf_size_, channel_size() + 1 ); return labels_.set( channel_size() - 1, label ); }
 		void set_label( index_t channel, L label ) { labels_.set( channel, label ); }
 		const L& get_label( index_t channel ) const { return labels_[ channel ]; }
 		index_t find_channel( const L& label ) const { return labels_.find( label ); }
-- 
2.43.0


From e07b40b810051e8784a5ae9566b95f6502654c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 70/74] fix: copied and moved char_streams read from the buffer
 of another object

---
 flut/char_stream.cpp | 4 ++--
 flut/char_stream.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flut/char_stream.cpp b/flut/char_stream.cpp
index f24b05c..90e1bf2 100644
--- a/flut/char_stream.cpp
+++ b/flut/char_stream.cpp
@@ -11,9 +11,9 @@ namespace flut
 		init_buffer( buf, strlen( buf ) );
 	}
 
-	char_stream::char_stream( string&& other, const char* delim ) : str_buffer( std::move( other ) ), delimiters_( delim )
+	char_stream::char_stream( string&& other, const char* delim ) : str_buffer( std::make_shared< const string >( std::move( other ) ) ), delimiters_( delim )
 	{
-		init_buffer( str_buffer.c_str(), str_buffer.size() );
+		init_buffer( str_buffer->c_str(), str_buffer->size() );
 	}
 
 	char_stream::char_stream( const path& filename, const char* delim ) :
diff --git a/flut/char_stream.hpp b/flut/char_stream.hpp
index 3b14a25..df91cb2 100644
--- a/flut/char_stream.hpp
+++ b/flut/char_stream.hpp
@@ -62,7 +62,7 @@ namespace flut
 		void process_end_pos() { if ( cur_pos == cur_pos_end ) buffer_flags.set< fail_flag >(); else { cur_pos = cur_pos_end; skip_delimiters(); } }
 
 		int radix = 10;
-		string str_buffer;
+		std::shared_ptr< const string > str_buffer; // shared, so that copies can keep pointing into it
 		const char* buffer;
 		const char* cur_pos;
 		char* cur_pos_end;
-- 
2.43.0


From ce46e98fa8b7e4d2acf43e4a645a4fea7df15891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:11 +0000
Subject: [PATCH 71/74] fix: flut_do_periodic works with an interval that is an
 expression

---
 flut/system/log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/system/log.hpp b/flut/system/log.hpp
index 68b8ed5..9b4523b 100644
--- a/flut/system/log.hpp
+++ b/flut/system/log.hpp
@@ -18,7 +18,7 @@
 #define FLUT_LOG_LEVEL_CRITICAL 6
 #define FLUT_LOG_LEVEL_NONE 7
 
-#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
+#define flut_do_periodic( interval_, statement_ ) { static int local_count_ = 0; if ( local_count_++ % ( interval_ ) == 0 ) { statement_; } }
 
 #define flut_logvar( var_ ) flut::log::trace( #var_"=", var_ )
 #define flut_logvar2( var1_, var2_ ) flut::log::trace( #var1_"=", var1_, "\t", #var2_"=", var2_ )
-- 
2.43.0


From 4719431a3ad52e72d80af0e099beaa4b1fc51201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 72/74] fix: path::replace_filename keeps the root and the
 separator of the path

---
 flut/system/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flut/system/path.cpp b/flut/system/path.cpp
index 84caa7a..d74dbb3 100644
--- a/flut/system/path.cpp
+++ b/flut/system/path.cpp
@@ -30,8 +30,8 @@ namespace flut
 
 	path& path::replace_filename( const path& f )
 	{
-		remove_filename();
-		return *this /= f;
+		data_ = data_.substr( 0, last_separator_pos() + 1 ) + f.data_; // keeps the separator, which may be the root
+		return *this;
 	}
 
 	flut::path& path::make_preferred()
-- 
2.43.0


From 1a3fba2c06459fb58bae4c268491860fe041d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 73/74] fix: folder_exists is false for a socket

---
 flut/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flut/filesystem.cpp b/flut/filesystem.cpp
index eb5235b..425339e 100644
--- a/flut/filesystem.cpp
+++ b/flut/filesystem.cpp
@@ -113,7 +113,7 @@ namespace flut
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From 5146fb006e31c277a95650930a4f5c098c0cb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 74/74] fix: storage can be given its own data as a new frame
 or channel

---
 flut/storage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flut/storage.hpp b/flut/storage.hpp
index 08845d7..c13abf8 100644
--- a/flut/storage.hpp
+++ b/flut/storage.hpp
@@ -22,10 +22,11 @@ namespace flut
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const vector< T >& data ) {
 			flut_assert( labels_.find( label ) == no_index );
-			resize( std::max( frame_size(), data.size() ), channel_size() + 1 );
+			const vector< T > values( data ); // data can be our own
+			resize( std::max( frame_size(), values.size() ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
-			for ( index_t fidx = 0; fidx < data.size(); ++fidx ) ( *this )( fidx, cidx ) = data[ fidx ];
+			for ( index_t fidx = 0; fidx < values.size(); ++fidx ) ( *this )( fidx, cidx ) = values[ fidx ];
 			return cidx;
 		}
 
@@ -50,9 +51,10 @@ namespace flut
 		/// add frame to storage
 		void add_frame( const vector< T >& data ) {
 			flut_assert( data.size() == channel_size() );
+			const vector< T > values( data ); // data can be our own
 			data_.resize( data_.size() + channel_size() );
 			++frame_size_;
-			std::copy( data.begin(), data.end(), data_.end() - channel_size() );
+			std::copy( values.begin(), values.end(), data_.end() - channel_size() );
 		}
 
 		/// number of channels
-- 
2.43.0

