#include "common.hpp"
#include "flut/buffer/interpolation.hpp"
#include "flut/math/regular_piecewise_linear_function.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/catmull_rom.hpp"
PROPERTY( "C29", "sample sequences of up to 30 scalars or vectors at ordered keys (ties included), in a third of the cases scaled by a power of two, function tables of up to 600 intervals, splines through up to 84 points; positions on, between, before and beyond the samples. Non-trivial: the position lies strictly between two different samples." )
using std::vector; using namespace flut::math;
template< typename V > static double mag( const V& v ) { return std::fabs( (double)v ); } static double mag( const vec3d& v ) { return length( v ); }
static void value( Gen& g, double& v, double sc = 1 ) { v = sc * g.real( 1000 ); } static void value( Gen& g, float& v, double sc = 1 ) { v = float( sc * g.real( 1000 ) ); } static void value( Gen& g, vec3d& v, double sc = 1 ) { v = vec3d( sc * g.real( 1000 ), sc * g.real( 1000 ), sc * g.real( 1000 ) ); }
template< typename V > static bool near_( const V& a, const V& b, double tol ) { return mag( V( a - b ) ) <= tol + 1e-300; }
#define NEAR( got_, want_, tol_ ) do { if ( !near_( got_, want_, tol_ ) ) FAIL( #got_ " ~ " #want_ ": off by more than " + pbt::show( (double)( tol_ ) ) ); } while ( 0 )

template< typename K, typename V > static void keyed( Gen& g, double eps ) {
	const double ks = pow2( g, -30, 30 ), vs = pow2( g, -40, 40 ); vector< std::pair< K, V > > s; K k = K( ks * g.real( 100 ) ); Seq q( g, 30, 1 ); while ( q.more() ) { V v; value( g, v, vs ); s.push_back( { k, v } ); if ( !g.chance( 1, 8 ) ) k += K( ks * g.positive( 0.01, 10 ) ); }
	size_t at = g.below( s.size() ); size_t how = g.below( 4 ); K x = how == 0 ? s[ at ].first : how == 1 ? K( s.front().first - ks * g.real( 0, 10 ) ) : how == 2 ? K( s.back().first + ks * g.real( 0, 10 ) ) : at + 1 < s.size() ? K( s[ at ].first + g.real( 0, 1 ) * ( s[ at + 1 ].first - s[ at ].first ) ) : K( ks * g.real( 200 ) );
	g.note( "samples", s.size() ).note( "first", s.front().first ).note( "last", s.back().first ).note( "x", x ); V got = flut::interpolated_value( s, x );
	// reference: last sample at or before x, and the one after it
	size_t hi = 0; while ( hi < s.size() && s[ hi ].first <= x ) ++hi; double big = 0; for ( auto& p : s ) big = std::max( big, mag( p.second ) );
	if ( hi == 0 ) NEAR( got, s[ 0 ].second, 4 * eps * big ); else if ( hi == s.size() ) NEAR( got, s.back().second, 4 * eps * big );
	else { const auto &a = s[ hi - 1 ], &b = s[ hi ]; double w = ( (double)x - a.first ) / ( (double)b.first - a.first ); g.nontrivial( w > 0 && w < 1 ); V want = V( ( 1.0 - w ) * a.second + w * b.second ); NEAR( got, want, eps * big * ( 1 + 200 * ks / ( (double)b.first - a.first ) ) ); if ( x == a.first ) NEAR( got, a.second, 4 * eps * big ); }
}
LAW( keyed_double, 450000 ) { keyed< double, double >( g, 1e-14 ); }
LAW( keyed_vec3, 240000 ) { keyed< double, vec3d >( g, 1e-14 ); }
LAW( keyed_float, 240000 ) { keyed< float, float >( g, 1e-6 ); }

template< typename V > static void indexed( Gen& g ) {
	const double vs = pow2( g, -40, 40 ); vector< V > s; Seq q( g, 30, 1 ); while ( q.more() ) { V v; value( g, v, vs ); s.push_back( v ); } size_t n = s.size(); double x; switch ( g.below( 4 ) ) { case 0: x = (double)g.below( n ); break; case 1: x = -g.positive( 1e-9, 100 ); break; case 2: x = n - 1 + g.real( 0, 100 ); break; default: x = g.real( 0, (double)n ); }
	g.note( "samples", n ).note( "x", x ); V got = flut::interpolated_value( s, x ); double big = 0; for ( auto& p : s ) big = std::max( big, mag( p ) );
	if ( x <= 0 ) NEAR( got, s[ 0 ], 1e-12 * big ); else if ( x >= n - 1 ) NEAR( got, s.back(), 1e-12 * big ); else { size_t i = (size_t)std::floor( x ); double w = x - i; g.nontrivial( w > 0 ); V want = V( ( 1.0 - w ) * s[ i ] + w * s[ i + 1 ] ); NEAR( got, want, 1e-12 * big ); if ( w == 0 ) NEAR( got, s[ i ], 1e-12 * big ); }
	vector< V > none; CHECK_THROWS( flut::interpolated_value( none, x ) );
}
LAW( indexed_double, 450000 ) { indexed< double >( g ); }
LAW( indexed_vec3, 240000 ) { indexed< vec3d >( g ); }

LAW( empty_samples, 100 ) { vector< std::pair< double, double > > e; CHECK_THROWS( flut::interpolated_value( e, g.real( 10 ) ) ); g.nontrivial( true ); }

template< typename T > static void table( Gen& g, double eps ) {
	const double sc = pow2( g, -30, 30 ); T a = T( sc * g.real( 100 ) ), b = a + T( sc * g.positive( 0.1, 100 ) ); int n = g.chance( 1, 20 ) ? g.i( 1, 600 ) : g.i( 1, 40 ), calls = 0; double c0 = g.real( 10 ), c1 = g.real( 10 ), c2 = g.real( 1 ); auto f = [&]( double x ) { ++calls; x /= sc; return c0 + c1 * x + c2 * x * x; };
	regular_piecewise_linear_function< T > p( a, b, n, f ); double step = ( (double)b - a ) / n; g.note( "min", a ).note( "max", b ).note( "intervals", n );
	for ( int t = 0; t < 4; ++t ) {
		size_t how = g.below( 4 ); T x = how == 0 ? T( a + step * g.i( 0, n ) ) : how == 1 ? T( a - sc * g.positive( 0.001, 50 ) ) : how == 2 ? T( b + sc * g.positive( 0.001, 50 ) ) : (T)g.real( a, b ); g.note( "x", x );
		double pos = ( (double)x - a ) / step; int i = std::max( 0, std::min( n - 1, (int)std::floor( pos ) ) ); double lo = f( a + i * step ), hi = f( a + ( i + 1 ) * step ), w = pos - i, want = lo + w * ( hi - lo ); g.nontrivial( w > 0 && w < 1 && n > 1 );
		double steep = std::fabs( c1 ) + 2 * std::fabs( c2 ) * 300, tol = eps * ( 1 + std::fabs( lo ) + std::fabs( hi ) + steep * 1000 ) * ( 2 + std::fabs( w ) ); CHECK_CLOSE( p( x ), want, 0, tol );
	}
}
LAW( table_double, 240000 ) { table< double >( g, 1e-12 ); }
LAW( table_float, 240000 ) { table< float >( g, 3e-6 ); }

// reference in Hermite form: through p1 and p2 with tangents half the distance between the neighbours
template< typename P > static P hermite( const P& p0, const P& p1, const P& p2, const P& p3, double t ) { double t2 = t * t, t3 = t2 * t; return P( ( 2 * t3 - 3 * t2 + 1 ) * p1 + ( t3 - 2 * t2 + t ) * ( 0.5 * ( p2 - p0 ) ) + ( 3 * t2 - 2 * t3 ) * p2 + ( t3 - t2 ) * ( 0.5 * ( p3 - p1 ) ) ); }
template< typename P > static void splines( Gen& g ) {
	vector< P > p; vector< double > t; size_t n = 4 + g.size( g.chance( 1, 30 ) ? 80 : 8 ); const double ts = pow2( g, -30, 30 ), vs = pow2( g, -40, 40 ); double now = ts * g.real( 10 ); for ( size_t i = 0; i < n; ++i ) { P v; value( g, v, vs ); p.push_back( v ); } for ( size_t i = 0; i + 2 < n; ++i ) { t.push_back( now ); now += ts * g.positive( 0.1, 10 ); }
	flut::catmull_rom< P, double > c( p, t ); double tol = 1e-8 * vs; g.note( "points", n );
	for ( size_t i = 0; i < t.size(); ++i ) NEAR( c( t[ i ] ), p[ i + 1 ], tol ); // passes through the points at their times
	for ( int r = 0; r < 3; ++r ) { double x = g.chance( 1, 5 ) ? t.front() - ts * g.real( 0, 1 ) : g.chance( 1, 5 ) ? t.back() + ts * g.real( 0, 1 ) : g.real( t.front(), t.back() ); g.note( "x", x ); size_t i = 0; while ( i + 2 < t.size() && t[ i + 1 ] <= x ) ++i; double w = ( x - t[ i ] ) / ( t[ i + 1 ] - t[ i ] ); g.nontrivial( w > 0 && w < 1 && t.size() > 2 ); NEAR( c( x ), hermite( p[ i ], p[ i + 1 ], p[ i + 2 ], p[ i + 3 ], w ), tol * ( 1 + std::fabs( w * w * w ) ) ); }
	size_t k = g.size( 6 ); vector< P > fp( p.begin(), p.begin() + std::min( k, n ) ); if ( fp.size() < 4 || fp.size() != t.size() + 2 ) CHECK_THROWS( ( flut::catmull_rom< P, double >( fp, t ) ) ); { size_t few = g.below( 4 ); vector< P > pf( p.begin(), p.begin() + few ); vector< double > tf( t.begin(), t.begin() + ( few > 2 ? few - 2 : 0 ) ); CHECK_THROWS( ( flut::catmull_rom< P, double >( pf, tf ) ) ); }
	flut::catmull_rom_segment< P > s( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ); double w = g.real( 0, 1 ); NEAR( s( w ), hermite( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], w ), tol ); NEAR( s( 0.0 ), p[ 1 ], tol ); NEAR( s( 1.0 ), p[ 2 ], tol );
}
LAW( spline_double, 180000 ) { splines< double >( g ); }
LAW( spline_vec3, 180000 ) { splines< vec3d >( g ); }

LAW( spline_alpha, 300000 )
{
	vec3d p[ 4 ]; for ( int i = 0; i < 4; ++i ) { for ( int k = 0; k < 20; ++k ) { p[ i ] = vec3d( g.real( 10 ), g.real( 10 ), g.real( 10 ) ); if ( i == 0 || distance( p[ i ], p[ i - 1 ] ) > 1 ) break; p[ i ] = p[ i - 1 ] + vec3d( 2, 0, 0 ); } }
	float alpha = g.pick( { 0.0f, 0.5f, 1.0f } ); flut::catmull_rom_segment_alpha< vec3d > s( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], alpha ); double x = g.real( 0, 1 ); g.note( "alpha", alpha ).note( "x", x ).note( "p1x", p[ 1 ].x ); g.nontrivial( x > 0 && x < 1 ); double tol = 2e-3;
	NEAR( s( 0.0f ), p[ 1 ], tol ); NEAR( s( 1.0f ), p[ 2 ], tol ); double t[ 4 ] = { 0 }; for ( int i = 1; i < 4; ++i ) t[ i ] = t[ i - 1 ] + std::pow( distance( p[ i - 1 ], p[ i ] ), (double)alpha ); double u = t[ 1 ] + x * ( t[ 2 ] - t[ 1 ] );
	auto mix = [&]( const vec3d& a, double ta, const vec3d& b, double tb ) { return ( tb - u ) / ( tb - ta ) * a + ( u - ta ) / ( tb - ta ) * b; }; vec3d a1 = mix( p[ 0 ], t[ 0 ], p[ 1 ], t[ 1 ] ), a2 = mix( p[ 1 ], t[ 1 ], p[ 2 ], t[ 2 ] ), a3 = mix( p[ 2 ], t[ 2 ], p[ 3 ], t[ 3 ] ), b1 = mix( a1, t[ 0 ], a2, t[ 2 ] ), b2 = mix( a2, t[ 1 ], a3, t[ 3 ] ), want = mix( b1, t[ 1 ], b2, t[ 2 ] ); NEAR( s( (float)x ), want, tol ); if ( alpha == 0 ) NEAR( s( (float)x ), hermite( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ], x ), tol );
	// length: sum of the chords over equal steps
	flut::catmull_rom_segment< vec3d > c( p[ 0 ], p[ 1 ], p[ 2 ], p[ 3 ] ); int steps = g.i( 1, 60 ); float from = (float)g.real( 0, 0.5 ), to = (float)g.real( 0.5, 1 ); if ( g.chance( 1, 3 ) ) std::swap( from, to ); double sum = 0; for ( int i = 1; i <= steps; ++i ) sum += distance( c( from + ( to - from ) * ( i - 1.0 ) / steps ), c( from + ( to - from ) * double( i ) / steps ) ); CHECK_CLOSE( flut::compute_spline_length( c, from, to, steps ), sum, 1e-3, 1e-3 );
	vec3d d = p[ 1 ] - p[ 0 ]; flut::catmull_rom_segment< vec3d > line( p[ 0 ], p[ 0 ] + d, p[ 0 ] + 2.0 * d, p[ 0 ] + 3.0 * d ); CHECK_CLOSE( flut::compute_spline_length( line, 0.0f, 1.0f ), length( d ), 1e-4, 1e-4 );
}
