#include "common.hpp"
#include "flut/math/average.hpp"
#include "flut/math/polynomial.hpp"
#include "flut/math/linear_regression.hpp"
#include "flut/buffer/data_algorithms.hpp"
#include <list>
PROPERTY( "C30", "sample sets of up to 60 values up to 1000 with weights, in a third of the cases scaled by a power of two, storages of up to 6 channels and 40 frames, polynomials of degree 1 to 5. Non-trivial: at least three samples that are not all equal." )
using std::vector;

LAW( weighted_average, 600000 )
{
	flut::math::average_< double > a; CHECK( a.empty() ); CHECK_EQ( a.get(), 0.0 ); double s = 0, w = 0, top = 0; size_t n = 0; const double vs = pow2( g, -40, 40 ), ws = pow2( g, -40, 40 ); Seq q( g, 60 );
	while ( q.more() ) { double v = vs * g.real( 1000 ), k = ws == 1 && g.coin() ? 1 : ws * g.positive( 0.001, 10 ); if ( k == 1 && g.coin() ) a.add( v ); else a.add( v, k ); s += k * v; w += k; top = std::max( top, std::fabs( v ) ); ++n; CHECK( !a.empty() ); CHECK_CLOSE( a.get(), s / w, 0, 1e-13 * top + 1e-300 ); if ( g.chance( 1, 30 ) ) { a.reset(); CHECK( a.empty() ); CHECK_EQ( a.get(), 0.0 ); s = w = top = 0; n = 0; } }
	g.note( "samples", n ).note( "sum", s ); g.nontrivial( n > 2 );
}

template< typename T > static void fill( Gen& g, vector< T >& v, size_t n ) { for ( size_t i = 0; i < n; ++i ) v.push_back( (T)g.real( 1000 ) ); }
// least squares in long double
static bool fit( const vector< double >& x, const vector< double >& y, long double& a, long double& b ) { long double sx = 0, sy = 0, n = x.size(), num = 0, den = 0; for ( size_t i = 0; i < x.size(); ++i ) { sx += x[ i ]; sy += y[ i ]; } sx /= n; sy /= n; for ( size_t i = 0; i < x.size(); ++i ) { num += ( x[ i ] - sx ) * ( y[ i ] - sy ); den += ( x[ i ] - sx ) * ( x[ i ] - sx ); } if ( den < 1e-3L ) return false; b = num / den; a = sy - b * sx; return true; }
LAW( regression, 600000 )
{
	size_t n = 2 + g.size( g.chance( 1, 40 ) ? 600 : 40 ); vector< double > x, y; bool line = g.chance( 1, 3 ); double A = g.real( 100 ), B = g.real( 100 ); fill( g, x, n ); if ( line ) for ( double v : x ) y.push_back( A + B * v ); else fill( g, y, n ); long double a, b; g.note( "n", n ).note( "x0", x[ 0 ] ).note( "y0", y[ 0 ] ); if ( !fit( x, y, a, b ) ) return; double spread = 0; for ( double v : x ) spread = std::max( spread, std::fabs( v - x[ 0 ] ) ); if ( spread < 1 ) return; g.nontrivial( n > 2 );
	double tb = 1e-8 * ( 1 + std::fabs( (double)b ) ), ta = tb * 1000 + 1e-7; auto f = flut::linear_regression( x, y ); CHECK_CLOSE( f.slope(), (double)b, 0, tb ); CHECK_CLOSE( f.offset(), (double)a, 0, ta ); if ( line ) { CHECK_CLOSE( f.slope(), B, 0, 1e-6 * ( 1 + std::fabs( B ) ) ); CHECK_CLOSE( f.offset(), A, 0, 1e-3 * ( 1 + std::fabs( B ) ) ); }
	{ const double xs = pow2( g, -40, 40 ), ys = pow2( g, -40, 40 ); auto X = x, Y = y; for ( double& v : X ) v *= xs; for ( double& v : Y ) v *= ys; auto h = flut::linear_regression( X, Y ); g.note( "x scale", xs ).note( "y scale", ys ); CHECK_CLOSE( h.slope(), f.slope() * ys / xs, 1e-9, tb * ys / xs ); CHECK_CLOSE( h.offset(), f.offset() * ys, 1e-9, ta * ys ); } // alike at every magnitude
	auto f2 = flut::linear_regression( x.begin(), x.end(), y.begin(), y.end() ); CHECK_CLOSE( f2.slope(), f.slope(), 0, tb ); CHECK_CLOSE( f2.offset(), f.offset(), 0, ta );
	double x0 = g.real( 100 ), st = g.positive( 0.1, 10 ); if ( g.chance( 1, 3 ) ) st = -st; vector< double > xr; for ( size_t i = 0; i < n; ++i ) xr.push_back( x0 + i * st ); g.note( "begin", x0 ).note( "step", st ); CHECK( fit( xr, y, a, b ) || n < 2 ); auto r = flut::linear_regression( x0, st, y ); double tr = 1e-8 * ( 1e3 + std::fabs( (double)b ) ); CHECK_CLOSE( r.slope(), (double)b, 0, tr ); CHECK_CLOSE( r.offset(), (double)a, 0, tr * 1000 ); { const double xs = pow2( g, -40, 40 ); auto h = flut::linear_regression( x0 * xs, st * xs, y ); CHECK_CLOSE( h.slope(), r.slope() / xs, 1e-9, tr / xs ); CHECK_CLOSE( h.offset(), r.offset(), 1e-9, tr * 1000 ); }
	vector< double > shorter( y.begin(), y.end() - 1 ); CHECK_THROWS( flut::linear_regression( x, shorter ) );
}

template< size_t D, typename... E > static void poly( Gen& g, E... e ) {
	double c[] = { (double)e... }; flut::polynomial< double, D > p( e... ); double x = g.chance( 1, 4 ) ? g.i( -2, 2 ) : g.real( 20 ), want = 0, size = 0; for ( size_t i = D + 1; i-- > 0; ) { want = want * x + c[ i ]; size = size * std::fabs( x ) + std::fabs( c[ i ] ); } g.note( "degree", D ).note( "x", x ); g.nontrivial( x != 0 && c[ D ] != 0 );
	CHECK_CLOSE( p( x ), want, 0, 1e-13 * size + 1e-300 ); CHECK_EQ( p( 0.0 ), c[ 0 ] ); CHECK_EQ( p.offset(), c[ 0 ] ); CHECK_EQ( p.slope(), c[ 1 ] ); const auto& k = p; for ( size_t i = 0; i <= D; ++i ) { CHECK_EQ( p[ i ], c[ i ] ); CHECK_EQ( k[ i ], c[ i ] ); }
	size_t j = g.below( D + 1 ); p[ j ] = 7; CHECK_EQ( k[ j ], 7.0 ); flut::polynomial< double, D > z; CHECK_EQ( z( x ), 0.0 );
}
LAW( polynomials, 600000 )
{
	const double cs = pow2( g, -40, 40 ); auto c = [&]() { return cs * g.real( 100 ); }; switch ( g.below( 4 ) ) { case 0: poly< 1 >( g, c(), c() ); break; case 1: poly< 2 >( g, c(), c(), c() ); break; case 2: poly< 3 >( g, c(), c(), c(), c() ); break; default: poly< 5 >( g, c(), c(), c(), c(), c(), c() ); }
	double b = g.real( 100 ), a = g.real( 100 ), y = g.real( 1000 ); if ( std::fabs( b ) < 0.01 ) b = 1; flut::linear_function< double > f( a, b ); double x = flut::intersect_y( f, y ); CHECK_CLOSE( f( x ), y, 1e-10, 1e-9 );
}

LAW( channel_statistics, 180000 )
{
	size_t nc = 1 + g.below( g.chance( 1, 60 ) ? 40 : 6 ); flut::storage< double > s; vector< vector< double > > m( nc ); for ( size_t c = 0; c < nc; ++c ) s.add_channel( "c" + std::to_string( c ) ); size_t n = 0; Seq q( g, 40, 1 ); while ( q.more() ) { s.add_frame(); for ( size_t c = 0; c < nc; ++c ) { double v = g.real( 1000 ); if ( c && g.chance( 1, 4 ) ) v = 2 * m[ 0 ].back(); s( n, c ) = v; m[ c ].push_back( v ); } ++n; }
	g.note( "channels", nc ).note( "frames", n ); g.nontrivial( n > 2 && nc > 1 ); auto mean = flut::compute_channel_means( s ); CHECK_EQ( mean.size(), nc ); vector< long double > mu( nc ); for ( size_t c = 0; c < nc; ++c ) { for ( double v : m[ c ] ) mu[ c ] += v; mu[ c ] /= n; CHECK_CLOSE( mean[ c ], (double)mu[ c ], 0, 1e-9 ); }
	auto cv = flut::compute_covariance( s ); CHECK_EQ( cv.row_size(), nc ); CHECK_EQ( cv.column_size(), nc ); for ( size_t a = 0; a < nc; ++a ) for ( size_t b = 0; b < nc; ++b ) { long double e = 0; for ( size_t i = 0; i < n; ++i ) e += ( m[ a ][ i ] - mu[ a ] ) * ( m[ b ][ i ] - mu[ b ] ); CHECK_CLOSE( cv( a, b ), double( e / n ), 1e-9, 1e-6 ); CHECK_CLOSE( cv( a, b ), cv( b, a ), 1e-12, 1e-12 ); } for ( size_t a = 0; a < nc; ++a ) CHECK( cv( a, a ) >= 0 );
	for ( size_t i = 0; i < n; ++i ) for ( size_t c = 0; c < nc; ++c ) CHECK_EQ( s( i, c ), m[ c ][ i ] );
}
