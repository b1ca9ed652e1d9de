#include "common.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/vec4.hpp"
#include "flut/math/bounding_box.hpp"
#include "flut/math/mat33.hpp"
PROPERTY( "C26", "vectors of three and four components up to 1e4, in a third of the cases scaled by a power of two (axis-aligned, null, tiny and general), scalars, and sets of up to 30 points for boxes. Non-trivial: no vector is null." )
using namespace flut::math;
template< typename T > static vec3_< T > v3( Gen& g, double mag ) { if ( g.chance( 1, 8 ) ) return vec3_< T >::unit( g.below( 3 ) ); return vec3_< T >( (T)g.real( mag ), (T)g.real( mag ), (T)g.real( mag ) ); }
#define SAME3( got_, x_, y_, z_ ) do { auto r_ = ( got_ ); CHECK_CLOSE( r_.x, x_, eps, 1e-30 ); CHECK_CLOSE( r_.y, y_, eps, 1e-30 ); CHECK_CLOSE( r_.z, z_, eps, 1e-30 ); } while ( 0 )
template< typename T > static void three( Gen& g, double eps ) {
	const double sc = sizeof( T ) == 8 ? pow2( g, -20, 40 ) : pow2( g, -12, 12 ); auto a = v3< T >( g, 10000 * sc ), b = v3< T >( g, 10000 * sc ); T s = (T)g.real( 100 ); if ( std::fabs( s ) < 0.01 ) s = 2; g.note( "ax", a.x ).note( "ay", a.y ).note( "az", a.z ).note( "bx", b.x ).note( "by", b.y ).note( "bz", b.z ).note( "s", s ); g.nontrivial( !a.is_null() && !b.is_null() );
	SAME3( a + b, T( a.x + b.x ), T( a.y + b.y ), T( a.z + b.z ) ); SAME3( a - b, T( a.x - b.x ), T( a.y - b.y ), T( a.z - b.z ) ); SAME3( -a, -a.x, -a.y, -a.z ); SAME3( s * a, T( s * a.x ), T( s * a.y ), T( s * a.z ) ); SAME3( a * s, T( s * a.x ), T( s * a.y ), T( s * a.z ) ); SAME3( a / s, a.x / s, a.y / s, a.z / s ); SAME3( a * b, T( a.x * b.x ), T( a.y * b.y ), T( a.z * b.z ) );
	auto c = a; c += b; CHECK( c == a + b ); c = a; c -= b; CHECK( c == a - b ); c = a; c *= s; { auto ww = a * s; SAME3( c, ww.x, ww.y, ww.z ); } c = a; c /= s; { auto ww = a / s; SAME3( c, ww.x, ww.y, ww.z ); } c = a; c *= b; { auto ww = a * b; SAME3( c, ww.x, ww.y, ww.z ); }
	double l2 = (double)a.x * a.x + (double)a.y * a.y + (double)a.z * a.z, l = std::sqrt( l2 ), m = std::sqrt( (double)b.x * b.x + (double)b.y * b.y + (double)b.z * b.z ); CHECK_CLOSE( length( a ), l, 4 * eps, 1e-18 ); CHECK_CLOSE( a.length(), l, 4 * eps, 1e-18 ); CHECK_CLOSE( squared_length( a ), l2, 4 * eps, 1e-30 ); CHECK_CLOSE( a.squared_length(), l2, 4 * eps, 1e-30 );
	double dx = (double)a.x - b.x, dy = (double)a.y - b.y, dz = (double)a.z - b.z; CHECK_CLOSE( distance( a, b ), std::sqrt( dx * dx + dy * dy + dz * dz ), 0, 10 * eps * ( l + m ) + 1e-18 ); CHECK_EQ( distance( a, b ), distance( b, a ) );
	CHECK_CLOSE( dot_product( a, b ), (double)a.x * b.x + (double)a.y * b.y + (double)a.z * b.z, 0, 10 * eps * l * m + 1e-30 );
	auto x = cross_product( a, b ); double tol = 10 * eps * l * m + 1e-30; CHECK_CLOSE( x.x, (double)a.y * b.z - (double)a.z * b.y, 0, tol ); CHECK_CLOSE( x.y, (double)a.z * b.x - (double)a.x * b.z, 0, tol ); CHECK_CLOSE( x.z, (double)a.x * b.y - (double)a.y * b.x, 0, tol );
	CHECK_CLOSE( dot_product( x, a ), 0, 0, 10 * tol * ( l + m ) ); auto y = cross_product( b, a ); CHECK_CLOSE( x.x, -y.x, 0, tol );
	if ( l > ( sizeof( T ) == 8 ? 1e-12 : 1e-6 ) ) { auto n = normalized( a ); CHECK_CLOSE( length( n ), 1, 0, 10 * eps ); CHECK_CLOSE( n.x * l, a.x, 10 * eps, 10 * eps * l ); CHECK_CLOSE( n.y * l, a.y, 10 * eps, 10 * eps * l ); CHECK_CLOSE( n.z * l, a.z, 10 * eps, 10 * eps * l ); auto k = a; normalize( k ); { auto ww = n; SAME3( k, ww.x, ww.y, ww.z ); } SAME3( a.normalized(), n.x, n.y, n.z ); }
	auto zero = vec3_< T >::zero(); CHECK( normalized( zero ) == zero ); CHECK( zero.is_null() ); CHECK_EQ( a.is_null(), a.x == 0 && a.y == 0 && a.z == 0 ); CHECK_EQ( a == b, a.x == b.x && a.y == b.y && a.z == b.z ); CHECK_EQ( a != b, !( a == b ) ); auto d = a; d[ g.below( 3 ) ] += T( 1 + l ); CHECK( d != a );
	for ( size_t i = 0; i < 3; ++i ) { CHECK_EQ( a[ i ], i == 0 ? a.x : i == 1 ? a.y : a.z ); CHECK_EQ( vec3_< T >::unit( i )[ i ], T( 1 ) ); CHECK_EQ( squared_length( vec3_< T >::unit( i ) ), T( 1 ) ); } size_t n = 0; for ( T e : a ) { CHECK_EQ( e, a[ n ] ); ++n; } CHECK_EQ( n, size_t( 3 ) );
	CHECK( vec3_< T >::unit( 0 ) == vec3_< T >::unit_x() && vec3_< T >::unit( 1 ) == vec3_< T >::unit_y() && vec3_< T >::unit( 2 ) == vec3_< T >::unit_z() && vec3_< T >::neg_unit_x() == -vec3_< T >::unit_x() && vec3_< T >::neg_unit_y() == -vec3_< T >::unit_y() && vec3_< T >::neg_unit_z() == -vec3_< T >::unit_z() ); CHECK( cross_product( vec3_< T >::unit_x(), vec3_< T >::unit_y() ) == vec3_< T >::unit_z() );
	{ const auto& ca = a; for ( size_t i = 0; i < 3; ++i ) { CHECK_EQ( ca[ i ], i == 0 ? a.x : i == 1 ? a.y : a.z ); } size_t q = 0; for ( T e : ca ) { CHECK_EQ( e, a[ q ] ); ++q; } CHECK_EQ( q, size_t( 3 ) ); CHECK( ca.begin() == &a.x && ca.end() - ca.begin() == 3 && a.end() - a.begin() == 3 );
	auto w = a; for ( T& e : w ) e += s; CHECK( w.x == a.x + s && w.y == a.y + s && w.z == a.z + s ); }
	{ double l2n = l2; auto near1 = a; if ( l > 1e-3 && g.coin() ) { near1 = normalized( a ); for ( size_t i = 0; i < 3; ++i ) CHECK( bool( is_normalized( vec3_< T >::unit( i ) ) ) && bool( is_normalized( -vec3_< T >::unit( i ) ) ) ); } l2n = (double)near1.x * near1.x + (double)near1.y * near1.y + (double)near1.z * near1.z; if ( std::fabs( l2n - 1 ) > 1000 * eps ) CHECK( !is_normalized( near1 ) ); T f[ 3 ] = { T( 0.6 ), T( 0.8 ), T( 0 ) }; size_t o = g.below( 3 ); vec3_< T > py( f[ o ], f[ ( o + 1 ) % 3 ], f[ ( o + 2 ) % 3 ] ); CHECK( is_normalized( py ) ); CHECK( !is_normalized( zero ) ); CHECK( !is_normalized( vec3_< T >( 1, 1, -1 ) ) ); }
	{ auto e = a; e += e; SAME3( e, T( 2 * a.x ), T( 2 * a.y ), T( 2 * a.z ) ); e = a; e -= e; CHECK( e.is_null() ); e = a; e *= e; { auto ww = a * a; SAME3( e, ww.x, ww.y, ww.z ); } e = a; e *= e.x; { auto ww = a * a.x; SAME3( e, ww.x, ww.y, ww.z ); } if ( std::fabs( a.y ) > 0.01 ) { e = a; e /= e.y; { auto ww = a / a.y; SAME3( e, ww.x, ww.y, ww.z ); } } if ( std::fabs( a.x ) > 0.01 ) { e = a; e /= e.x; { auto ww = a / a.x; SAME3( e, ww.x, ww.y, ww.z ); } } auto h = a; h *= b; h += a; { auto ww = a * b + a; CHECK( distance( h, ww ) <= 10 * eps * ( length( a * b ) + length( a ) ) ); } CHECK( &( h += a ) == &h && &( h *= s ) == &h && &( h -= a ) == &h && &( h /= s ) == &h ); SAME3( a * 3, T( 3 * a.x ), T( 3 * a.y ), T( 3 * a.z ) ); SAME3( 3 * a, T( 3 * a.x ), T( 3 * a.y ), T( 3 * a.z ) ); }
	vec3_< T > u( s ); CHECK( u.x == s && u.y == s && u.z == s && u == vec3_< T >::uniform( s ) ); vec3_< double > wide( a ); CHECK( wide.x == a.x && wide.y == a.y && wide.z == a.z ); wide = vec3_< float >( b ); CHECK( wide.z == (float)b.z ); d = a; d.set( b.x, b.y, b.z ); CHECK( d == b ); d.clear(); CHECK( d.is_null() );
	std::stringstream o; o.precision( 17 ); o << a; vec3_< T > in; o >> in; CHECK( in == a );
	T r = (T)g.positive( 0.01, 100 ); double inc = g.real( 0, 180 ), az = g.real( -180, 180 ); auto p = vec3_from_polar( r, deg( T( inc ) ), deg( T( az ) ) ); double k = M_PI / 180, pt = 20 * eps * r; g.note( "inclination", inc ).note( "azimuth", az ); CHECK_CLOSE( length( p ), r, 20 * eps, 0 ); CHECK_CLOSE( p.y, r * std::cos( inc * k ), 0, pt ); CHECK_CLOSE( p.x, r * std::sin( inc * k ) * std::sin( az * k ), 0, pt ); CHECK_CLOSE( p.z, r * std::sin( inc * k ) * std::cos( az * k ), 0, pt );
	auto mt = mat33_from_axes( a, b, x ); CHECK( mt[ 0 ][ 0 ] == a.x && mt[ 1 ][ 0 ] == a.y && mt[ 2 ][ 0 ] == a.z && mt[ 0 ][ 1 ] == b.x && mt[ 1 ][ 1 ] == b.y && mt[ 2 ][ 1 ] == b.z && mt[ 0 ][ 2 ] == x.x && mt[ 1 ][ 2 ] == x.y && mt[ 2 ][ 2 ] == x.z ); CHECK( mt.e00 == a.x && mt.e01 == b.x && mt.e02 == x.x && mt.e10 == a.y && mt.e12 == x.y && mt.e21 == b.z );
}
LAW( vec3_double, 450000 ) { three< double >( g, 1e-13 ); }
LAW( vec3_float, 300000 ) { three< float >( g, 1e-6 ); }

#define SAME4( got_, x_, y_, z_, w_ ) do { auto r_ = ( got_ ); CHECK_CLOSE( r_.x, x_, eps, 1e-30 ); CHECK_CLOSE( r_.y, y_, eps, 1e-30 ); CHECK_CLOSE( r_.z, z_, eps, 1e-30 ); CHECK_CLOSE( r_.w, w_, eps, 1e-30 ); } while ( 0 )
template< typename T > static void four( Gen& g, double eps )
{
	using vec4d = vec4_< T >; const double sc = sizeof( T ) == 8 ? pow2( g, -20, 40 ) : pow2( g, -12, 12 ); auto r = [&]() { return T( sc * g.real( 10000 ) ); }; vec4d a( r(), r(), r(), r() ), b( r(), r(), r(), r() ); T s = T( g.real( 100 ) ); if ( std::fabs( s ) < 0.01 ) s = 2; g.note( "ax", a.x ).note( "ay", a.y ).note( "az", a.z ).note( "aw", a.w ).note( "bx", b.x ).note( "bw", b.w ).note( "s", s ); g.nontrivial( !a.is_null() && !b.is_null() );
	SAME4( a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ); SAME4( a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ); SAME4( -a, -a.x, -a.y, -a.z, -a.w ); SAME4( s * a, s * a.x, s * a.y, s * a.z, s * a.w ); SAME4( a * s, s * a.x, s * a.y, s * a.z, s * a.w ); SAME4( a / s, a.x / s, a.y / s, a.z / s, a.w / s );
	auto c = a; c += b; SAME4( c, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ); c = a; c -= b; SAME4( c, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ); c = a; c *= s; SAME4( c, s * a.x, s * a.y, s * a.z, s * a.w ); c = a; c /= s; SAME4( c, a.x / s, a.y / s, a.z / s, a.w / s );
	double l2 = (double)a.x * a.x + (double)a.y * a.y + (double)a.z * a.z + (double)a.w * a.w; CHECK_CLOSE( a.squared_length(), l2, 4 * eps, 0 ); CHECK_CLOSE( a.length(), std::sqrt( l2 ), 4 * eps, 0 ); for ( size_t i = 0; i < 4; ++i ) { CHECK_EQ( a[ i ], i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : a.w ); vec4d z; CHECK( z.is_null() ); z[ i ] = 1; CHECK( !z.is_null() ); CHECK_EQ( ( (const vec4d&)a )[ i ], i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : a.w ); } c = a; c += c; SAME4( c, 2 * a.x, 2 * a.y, 2 * a.z, 2 * a.w ); c = a; c *= c.x; SAME4( c, T( a.x * a.x ), T( a.y * a.x ), T( a.z * a.x ), T( a.w * a.x ) ); c = a; c -= c; CHECK( c.is_null() ); { size_t i = g.below( 4 ); if ( std::fabs( a[ i ] ) > 0.01 ) { c = a; c /= c[ i ]; SAME4( c, a.x / a[ i ], a.y / a[ i ], a.z / a[ i ], a.w / a[ i ] ); } }
	SAME4( vec4d::unit_w(), 0, 0, 0, 1 ); SAME4( vec4d::unit_x(), 1, 0, 0, 0 ); SAME4( vec4d::unit_y(), 0, 1, 0, 0 ); SAME4( vec4d::unit_z(), 0, 0, 1, 0 ); CHECK( vec4d::zero().is_null() );
}

LAW( vec4_double, 300000 ) { four< double >( g, 1e-13 ); }
LAW( vec4_float, 100000 ) { four< float >( g, 1e-6 ); }

template< typename T > static void boxes( Gen& g )
{
	using vec3d = vec3_< T >; using bounding_boxd = bounding_box_< T >; std::vector< vec3d > pts; Seq s( g, 30 ); const double sc = pow2( g, -40, 40 ); while ( s.more() ) pts.push_back( v3< T >( g, 1000 * sc ) ); g.note( "points", pts.size() ); g.nontrivial( pts.size() > 2 );
	bounding_boxd all, parts; size_t cut = g.size( pts.size() ); bounding_boxd first, second; for ( size_t i = 0; i < pts.size(); ++i ) { all += pts[ i ]; ( i < cut ? first : second ) += pts[ i ]; } parts = first; parts += second;
	for ( size_t k = 0; k < 3; ++k ) { T lo = std::numeric_limits< T >::max(), hi = std::numeric_limits< T >::lowest(); for ( auto& p : pts ) { lo = std::min( lo, p[ k ] ); hi = std::max( hi, p[ k ] ); } CHECK_EQ( all.lower_bounds[ k ], lo ); CHECK_EQ( all.upper_bounds[ k ], hi ); CHECK_EQ( parts.lower_bounds[ k ], lo ); CHECK_EQ( parts.upper_bounds[ k ], hi ); }
	if ( !pts.empty() ) { bounding_boxd p( pts[ 0 ] ); CHECK( p.lower_bounds == pts[ 0 ] && p.upper_bounds == pts[ 0 ] ); bounding_boxd two( pts[ 0 ], pts.back() ); CHECK( two.lower_bounds == pts[ 0 ] && two.upper_bounds == pts.back() ); auto again = all; again += again; CHECK( again.lower_bounds == all.lower_bounds && again.upper_bounds == all.upper_bounds ); again += bounding_boxd(); CHECK( again.lower_bounds == all.lower_bounds && again.upper_bounds == all.upper_bounds ); again += pts[ g.below( pts.size() ) ]; CHECK( again.lower_bounds == all.lower_bounds && again.upper_bounds == all.upper_bounds ); }
}
LAW( boxes_double, 260000 ) { boxes< double >( g ); }
LAW( boxes_float, 100000 ) { boxes< float >( g ); }
