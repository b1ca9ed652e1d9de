#include "common.hpp"
#include "flut/math/math.hpp"
#include "flut/math/bounds.hpp"
#include "flut/math/delta.hpp"
PROPERTY( "C24", "double, float and int values up to 1e6, in a third of the cases scaled by a power of two, with ordered limits, periods, boundary widths and texts of bounds. Non-trivial: the value lies outside the limits, or inside a soft boundary." )
using std::string; using namespace flut::math;

template< typename T > static void clamps( Gen& g ) {
	const T sc = std::is_integral< T >::value ? T( 1 ) : T( pow2( g, -40, 40 ) ); T a = sc * (T)g.real( 1000 ), b = sc * (T)g.real( 1000 ); if ( b < a ) std::swap( a, b ); T v = g.chance( 1, 8 ) ? a : g.chance( 1, 8 ) ? b : sc * (T)g.real( 3000 ); g.note( "v", v ).note( "min", a ).note( "max", b ); g.nontrivial( v < a || v > b );
	T want = v < a ? a : v > b ? b : v, w = v; CHECK_EQ( clamped( v, a, b ), want ); CHECK( &clamp( w, a, b ) == &w ); CHECK_EQ( w, want ); CHECK_EQ( is_between( v, a, b ), v >= a && v <= b );
	flut::bounds< T > bd( a, b ); CHECK_EQ( bd.is_within( v ), v >= a && v <= b ); CHECK_EQ( bd.range(), T( b - a ) ); CHECK_EQ( bd.get_violation( v ), v < a ? T( v - a ) : v > b ? T( v - b ) : T( 0 ) ); w = v; bd.clamp( w ); CHECK_EQ( w, want );
	auto neg = -bd; CHECK_EQ( neg.lower, T( -b ) ); CHECK_EQ( neg.upper, T( -a ) ); CHECK_EQ( neg.is_within( T( -v ) ), bd.is_within( v ) );
	flut::bounds< T > one( v ); CHECK( one.lower == v && one.upper == v ); flut::bounds< double > conv( bd ); CHECK( conv.lower == (double)a && conv.upper == (double)b );
	T s = v; CHECK_EQ( set_if_smaller( s, a ), std::min( v, a ) ); CHECK_EQ( s, std::min( v, a ) ); s = v; CHECK_EQ( set_if_bigger( s, a ), std::max( v, a ) ); CHECK_EQ( s, std::max( v, a ) );
	CHECK_EQ( sign( v ), v >= 0 ? T( 1 ) : T( -1 ) ); CHECK_EQ( squared( v ), T( v * v ) ); CHECK_EQ( cubed( v ), T( v * v * v ) );
	flut::delta< T > d( a ); CHECK_EQ( d( v ), T( v - a ) ); CHECK_EQ( d( b ), T( b - v ) ); CHECK_EQ( d( b ), T( 0 ) );
}
LAW( clamp_double, 450000 ) { clamps< double >( g ); }
LAW( clamp_float, 300000 ) { clamps< float >( g ); }
LAW( clamp_int, 300000 ) { clamps< int >( g ); }

LAW( soft_clamp_shape, 600000 )
{
	const double sc = pow2( g, -40, 40 ); double a = sc * g.real( 100 ), len = sc * g.positive( 0.01, 100 ), b = a + len, k = g.chance( 1, 6 ) ? 0.5 : g.positive( 0.001, 0.5 ), r = k * len; auto at = [&]() { return g.chance( 1, 3 ) ? g.real( a, b ) : g.chance( 1, 3 ) ? a + g.real( 1 ) * 2 * r : g.chance( 1, 2 ) ? b + g.real( 1 ) * 2 * r : sc * g.real( 1e6 ); };
	double v = at(), w = at(); if ( w < v ) std::swap( v, w ); g.note( "min", a ).note( "max", b ).note( "boundary", k ).note( "v", v ).note( "w", w ); g.nontrivial( v < a + r || w > b - r );
	double fv = soft_clamped( v, a, b, k ), fw = soft_clamped( w, a, b, k ), tol = 1e-9 * ( sc + std::fabs( a ) + std::fabs( b ) );
	CHECK( fv >= a - tol && fv <= b + tol && fw >= a - tol && fw <= b + tol ); CHECK( fv <= fw + tol ); // stays inside, keeps the order
	if ( v >= a + r && v <= b - r ) CHECK_CLOSE( fv, v, 0, tol );
	if ( v > b - r ) CHECK( fv <= v + tol && fv >= b - r - tol ); if ( v < a + r ) CHECK( fv >= v - tol && fv <= a + r + tol );
	CHECK( std::fabs( fw - fv ) <= ( w - v ) + tol ); // never steeper than the identity, so no jumps
	// mirror image, and half way at one boundary width beyond the start
	CHECK_CLOSE( soft_clamped( a + b - v, a, b, k ), a + b - fv, 0, tol ); CHECK_CLOSE( soft_clamped( b, a, b, k ), b - r / 2, 0, tol ); CHECK_CLOSE( soft_clamped( a, a, b, k ), a + r / 2, 0, tol );
	double x = v; CHECK( &soft_clamp( x, a, b, k ) == &x ); CHECK_CLOSE( x, fv, 0, tol ); flut::bounds< double > bd( a, b ); x = v; bd.soft_clamp( x, k ); CHECK_CLOSE( x, fv, 0, tol );
	double far = soft_clamped( b + 1e6 * len, a, b, k ); CHECK( far > b - r * 1e-3 );
}

template< typename T > static void wraps( Gen& g, double rel ) {
	const T sc = T( pow2( g, -30, 30 ) ); T a = sc * (T)g.real( 100 ), p = sc * (T)g.positive( 0.01, 100 ), b = a + p; T v = g.chance( 1, 5 ) ? T( a + p * g.i( -20, 20 ) ) : g.chance( 1, 3 ) ? (T)g.real( a, b ) : sc * (T)g.real( 10000 ); p = b - a; if ( !( p > 0 ) ) return; g.note( "v", v ).note( "lower", a ).note( "upper", b ); g.nontrivial( v < a || v > b );
	T w = wrapped( v, a, b ); double tol = rel * ( std::fabs( v ) + std::fabs( a ) + std::fabs( b ) ); CHECK( w >= a - tol && w <= b + tol ); double n = ( (double)v - w ) / p; CHECK_CLOSE( n, std::floor( n + 0.5 ), 0, 4 * tol / p + 1e-9 );
	int il = g.i( -50, 50 ), ip = g.i( 1, 60 ), iv = il + g.i( 0, 400 ); CHECK_EQ( wrapped( T( iv * sc ), T( il * sc ), T( ( il + ip ) * sc ) ), T( ( il + ( iv - il ) % ip ) * sc ) ); // a value not below the period never gives its upper end
	if ( v > a + tol && v < b - tol ) CHECK_CLOSE( w, v, 0, tol ); T x = v; CHECK( &wrap( x, a, b ) == &x ); CHECK_EQ( x, w );
}
LAW( wrap_double, 450000 ) { wraps< double >( g, 1e-13 ); }
LAW( wrap_float, 240000 ) { wraps< float >( g, 1e-5 ); }

LAW( elementary, 450000 )
{
	double v = g.real( 1e6 ); g.note( "v", v ); g.nontrivial( v != std::floor( v ) );
	CHECK_CLOSE( deg_to_rad( v ), v * M_PI / 180, 1e-12, 1e-300 ); CHECK_CLOSE( rad_to_deg( v ), v * 180 / M_PI, 1e-12, 1e-300 ); CHECK_CLOSE( rad_to_deg( deg_to_rad( v ) ), v, 1e-12, 1e-300 );
	CHECK_CLOSE( signed_sqrt( v ), v < 0 ? -std::sqrt( -v ) : std::sqrt( v ), 1e-14, 0 ); if ( std::fabs( v ) > 1e-6 ) { CHECK_CLOSE( inv( v ), 1 / v, 1e-14, 0 ); CHECK_CLOSE( invsqrt( std::fabs( v ) ), 1 / std::sqrt( std::fabs( v ) ), 1e-14, 0 ); }
	{ using C = flut::constants< double >; using F = flut::constants< float >; using I = flut::constants< int >; CHECK_CLOSE( v * C::pi(), v * M_PI, 1e-14, 0 ); CHECK_CLOSE( C::half_pi() * 2, M_PI, 1e-14, 0 ); CHECK_CLOSE( C::two_pi(), 2 * M_PI, 1e-14, 0 ); CHECK_CLOSE( F::pi(), M_PI, 1e-6, 0 ); CHECK_CLOSE( F::half_pi(), M_PI / 2, 1e-6, 0 ); CHECK_CLOSE( F::two_pi(), 2 * M_PI, 1e-6, 0 ); CHECK_EQ( v * C::one(), v ); CHECK_EQ( v + C::zero(), v ); CHECK_EQ( I::one(), 1 ); CHECK_EQ( I::zero(), 0 ); CHECK( v < C::max() && v > C::lowest() && C::min() > 0 && C::min() < 1e-300 ); CHECK_EQ( I::max(), INT32_MAX ); CHECK_EQ( I::lowest(), INT32_MIN ); CHECK_EQ( I::min(), INT32_MIN ); CHECK( std::isnan( C::nan() ) && std::isnan( F::nan() ) ); CHECK( 1 + C::epsilon() > 1 && 1 + C::epsilon() / 2 == 1 ); CHECK_EQ( C::relaxed_epsilon(), 4 * C::epsilon() ); CHECK_EQ( C::sentinel(), C::lowest() ); CHECK_EQ( flut::constants< unsigned >::sentinel(), UINT32_MAX ); }
	CHECK( equals( v, v ) ); CHECK( equals( v, v * ( 1 + 2e-16 ) ) ); if ( std::fabs( v ) > 1e-6 ) { CHECK( !equals( v, v * 1.001 ) ); CHECK( !equals( v, -v ) ); CHECK( equals( v, v * 1.005, 0.01 ) ); const double sc = pow2( g, -60, 40 ), tol = std::pow( 10.0, g.real( -12, -1 ) ), near1 = v * sc * ( 1 + tol * g.real( 0.4 ) ), far1 = v * sc * ( 1 + tol * ( g.coin() ? 1 : -1 ) * g.real( 2.5, 4 ) ); CHECK( equals( v * sc, near1, tol ) ); CHECK( !equals( v * sc, far1, tol ) ); CHECK( !equals( v * sc, v * sc * 1.001 ) ); CHECK( !equals( float( v * sc ), float( v * sc * 1.001 ) ) ); }
	double sw = g.chance( 1, 3 ) ? g.i( -50, 50 ) : g.real( 1000 ); double f = sw - 2 * std::floor( sw / 2 ); g.note( "wave", sw ); if ( f < 1 - 1e-9 || f == 1 || f > 1 + 1e-9 ) if ( f < 2 - 1e-9 ) CHECK_EQ( square_wave( sw ), f < 1 ? 1.0 : -1.0 ); double q = (double)g.i( -400, 400 ) / 8; CHECK_EQ( square_wave( q + 2 ), square_wave( q ) ); CHECK_EQ( square_wave( q + 1 ), -square_wave( q ) );
	int i = g.i( -100000, 100000 ); CHECK_EQ( is_even( i ), i % 2 == 0 ); CHECK_EQ( is_odd( i ), i % 2 != 0 ); unsigned u = g.chance( 1, 2 ) ? 1u << g.below( 32 ) : (unsigned)g.u64( 0, UINT32_MAX ); int bits = 0; for ( unsigned t = u; t; t >>= 1 ) bits += t & 1; CHECK_EQ( is_power_of_two( u ), bits == 1 ); uint64_t z = (uint64_t)u << 31; CHECK_EQ( is_power_of_two( z ), bits == 1 );
}

LAW( bounds_text, 300000 )
{
	auto num = [&]() { return g.i( -100000, 100000 ) / ( g.coin() ? 1.0 : 64.0 ); }; double a = num(), b = num(); auto t = [&]( double v ) { char s[ 64 ]; snprintf( s, sizeof s, g.pick( { "%.17g", "%.6f", "%.9e" } ), v ); return string( s ); };
	string text = t( a ); bool range = g.chance( 3, 4 ); if ( range ) { if ( text.find_first_of( ".e" ) == string::npos || g.coin() ) text += g.pick( { " ", "" } ); text += ".."; text += g.pick( { " ", "" } ); text += t( b ); } g.note( "text", text ); g.nontrivial( range && a != b );
	if ( g.chance( 1, 8 ) ) { double f = g.i( 1, 63 ) / 64.0; char s[ 64 ]; snprintf( s, sizeof s, "%d..%s%s", (int)std::floor( a ), g.coin() ? "-" : "", std::to_string( f ).c_str() + 1 ); a = std::floor( a ); b = strchr( s, '-' ) && strstr( s, "..-" ) ? -f : f; range = true; text = s; g.note( "text", text ); } // a number may start with its point
	flut::prop_node pn; pn.set_value( text ); flut::boundsd d( pn ); CHECK_CLOSE( d.lower, a, 1e-9, 0 ); CHECK_CLOSE( d.upper, range ? b : a, 1e-9, 0 );
	int ia = g.i( -100000, 100000 ), ib = g.i( -100000, 100000 ); flut::prop_node pi; pi.set_value( std::to_string( ia ) + ".." + std::to_string( ib ) ); flut::boundsi bi( pi ); CHECK_EQ( bi.lower, ia ); CHECK_EQ( bi.upper, ib );
	flut::prop_node q; bool lo = g.coin(), hi = g.coin() || !lo; auto put = [&]( const char* first, const char* second, int v ) { switch ( g.below( 4 ) ) { case 0: q.set( first, v ); break; case 1: q.set( second, v ); break; case 2: q.set( first, v ); q.set( second, v + 1 ); break; default: q.set( second, v + 1 ); q.set( first, v ); } }; if ( lo ) put( "min", "lower", ia ); if ( hi ) put( "max", "upper", ib ); // min and max come before lower and upper
	flut::boundsd e( q ); CHECK_EQ( e.lower, lo ? (double)ia : std::numeric_limits< double >::lowest() ); CHECK_EQ( e.upper, hi ? (double)ib : std::numeric_limits< double >::max() );
	flut::prop_node none; CHECK_THROWS( flut::boundsd( none ) ); std::ostringstream o; o << flut::boundsi( ia, ib ); string os = o.str(); flut::char_stream cs( os.c_str() ); flut::boundsi r; cs >> r; CHECK( r.lower == ia && r.upper == ib );
}
