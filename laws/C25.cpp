#include "common.hpp"
#include "flut/math/angle.hpp"
PROPERTY( "C25", "angles in degrees and radians of up to +-10000 degrees, in float and double, combined, scaled, compared and converted. Non-trivial: neither angle is zero." )
using namespace flut::math;
template< typename T > static void angles( Gen& g, double eps ) {
	const T sc = T( sizeof( T ) == 8 ? pow2( g, -40, 24 ) : pow2( g, -20, 0 ) ); T a = sc * (T)g.real( 10000 ), b = sc * (T)g.real( 10000 ); double s = g.real( 100 ); if ( std::fabs( s ) < 0.01 ) s = 0.5; const double k = M_PI / 180; g.note( "a", a ).note( "b", b ).note( "s", s ); g.nontrivial( a != 0 && b != 0 );
	degree_< T > da = deg( a ), db = deg( b ); radian_< T > ra( da ), rb; rb = db; CHECK_CLOSE( ra.value, a * k, eps, 1e-30 ); CHECK_CLOSE( rb.value, b * k, eps, 1e-30 );
	CHECK_CLOSE( da.rad_value(), a * k, eps, 1e-30 ); CHECK_EQ( da.deg_value(), a ); CHECK_CLOSE( ra.deg_value(), a, 4 * eps, 1e-30 ); CHECK_EQ( ra.rad_value(), ra.value ); CHECK_CLOSE( da.radian().value, a * k, eps, 1e-30 ); CHECK_CLOSE( ra.degree().value, a, 4 * eps, 1e-30 ); CHECK_EQ( da.degree().value, a ); CHECK_EQ( ra.radian().value, ra.value );
	degree_< T > back( ra ); CHECK_CLOSE( back.value, a, 4 * eps, 1e-30 ); degree_< T > same( da ); CHECK_EQ( same.value, a ); radian_< double > wide( da ); CHECK_CLOSE( wide.value, a * k, 4 * eps, 1e-30 ); degree_< float > narrow( rad( (double)b * k ) ); CHECK_CLOSE( narrow.value, b, 1e-6, 1e-30 );
	CHECK_EQ( ( da + db ).value, T( a + b ) ); CHECK_EQ( ( da - db ).value, T( a - b ) ); CHECK_EQ( ( -da ).value, T( -a ) ); CHECK_CLOSE( ( da * s ).value, T( a * T( s ) ), eps, 1e-30 ); CHECK_CLOSE( ( s * da ).value, T( T( s ) * a ), eps, 1e-30 ); CHECK_CLOSE( ( da / s ).value, a / s, 4 * eps, 1e-30 );
	degree_< T > c = deg( a ); c += db; CHECK_EQ( c.value, T( a + b ) ); c = deg( a ); c -= db; CHECK_EQ( c.value, T( a - b ) ); c = deg( a ); c *= s; CHECK_CLOSE( c.value, T( a * T( s ) ), eps, 1e-30 ); c = deg( a ); c /= s; CHECK_CLOSE( c.value, a / s, 4 * eps, 1e-30 );
	CHECK_CLOSE( ( degree_< double >( da ) + degree_< float >( db ) ).value, (double)a + b, 1e-6, 1e-2 * std::max( 1.0, (double)sc ) );
	CHECK_EQ( da < db, a < b ); CHECK_EQ( da > db, a > b ); CHECK_EQ( da <= db, a <= b ); CHECK_EQ( da >= db, a >= b ); CHECK_EQ( da == db, a == b ); CHECK_EQ( da != db, a != b ); CHECK( da == same ); CHECK( !( da != same ) );
	double big = eps * ( 10 + 4 * std::fabs( a * k ) ); CHECK_CLOSE( flut::math::sin( da ), std::sin( a * k ), 0, big ); CHECK_CLOSE( flut::math::cos( da ), std::cos( a * k ), 0, big ); CHECK_CLOSE( flut::math::sin( ra ), std::sin( a * k ), 0, big ); CHECK_CLOSE( flut::math::cos( ra ), std::cos( a * k ), 0, big ); if ( std::fabs( std::cos( a * k ) ) > 0.01 ) CHECK_CLOSE( flut::math::tan( da ), std::tan( a * k ), 0, 1e4 * 4 * big );
	if ( a != 0 ) CHECK_CLOSE( ( s / da ).value, s / a, 4 * eps, 1e-30 ); CHECK_CLOSE( flut::math::atan( da ), std::atan( a * k ), 0, big ); { T q = T( s / 100 ); CHECK_CLOSE( flut::math::asin( rad( q ) ), std::asin( (double)q ), 0, 1e-3 ); CHECK_CLOSE( flut::math::acos( rad( q ) ), std::acos( (double)q ), 0, 1e-3 ); }
	CHECK_EQ( (double)da, (double)a ); CHECK_EQ( (float)ra, (float)ra.value ); CHECK_EQ( degree_< T >().value, T( 0 ) );
	std::stringstream o; o.precision( 17 ); o << da; degree_< T > in; o >> in; CHECK_EQ( in.value, a ); std::string text = o.str(); flut::char_stream cs( text.c_str() ); radian_< T > rin; cs >> rin; CHECK_EQ( rin.value, a );
}
using flut::math::angle_unit; using flut::math::angle_;
// every pair of units and value types, by construction and by assignment
template< angle_unit U, typename T, angle_unit U2, typename T2 > static void cross( double v, double eps ) {
	const double k = M_PI / 180; T2 from = T2( v ); double want = U == U2 ? (double)from : U2 == angle_unit::degrees ? from * k : from / k;
	angle_< U2, T2 > a( from ); angle_< U, T > c( a ), d; d = a; CHECK_CLOSE( c.value, want, eps, 1e-30 ); CHECK_CLOSE( d.value, want, eps, 1e-30 ); CHECK_EQ( a.value, from );
	angle_< U, T > e( T( 5 ) ); ( e = a ) = a; CHECK_CLOSE( e.value, want, eps, 1e-30 );
}
template< angle_unit U, angle_unit U2 > static void cross_types( double v ) { cross< U, double, U2, double >( v, 1e-13 ); cross< U, float, U2, double >( v, 3e-7 ); cross< U, double, U2, float >( v, 1e-13 ); cross< U, float, U2, float >( v, 3e-7 ); cross< U, double, U2, int >( std::floor( v ), 1e-13 ); }
LAW( conversions, 300000 )
{
	double v = g.real( 10000 ); if ( std::fabs( v ) < 1e-6 ) v = 0; g.note( "v", v ); g.nontrivial( v != 0 ); const auto D = angle_unit::degrees, R = angle_unit::radians; cross_types< D, R >( v ); cross_types< R, D >( v ); cross_types< D, D >( v ); cross_types< R, R >( v );
}
LAW( angles_double, 600000 ) { angles< double >( g, 1e-13 ); }
LAW( angles_float, 450000 ) { angles< float >( g, 3e-7 ); }
