#include "common.hpp"
#include "flut/math/quat.hpp"
PROPERTY( "C27", "unit quaternions (identity, half turns about the axes, tiny and general rotations), vectors, directions that are general, equal, opposite and nearly so, Euler angles in every order; conversions also in single precision. Non-trivial: the rotation angle is neither zero nor pi." )
using namespace flut::math; using std::string;
template< typename T > static vec3_< T > dir( Gen& g ) {
	for ( int i = 0; i < 20; ++i ) { vec3_< T > v; switch ( g.below( 4 ) ) { case 0: v = vec3_< T >::unit( g.below( 3 ) ); if ( g.coin() ) v = -v; break; case 1: v = vec3_< T >( (T)g.i( -2, 2 ), (T)g.i( -2, 2 ), (T)g.i( -2, 2 ) ); break; default: v = vec3_< T >( (T)g.real( 1 ), (T)g.real( 1 ), (T)g.real( 1 ) ); } if ( length( v ) > 0.01 ) { normalize( v ); return v; } }
	return vec3_< T >::unit_x();
}
static double ang( Gen& g ) { switch ( g.below( 4 ) ) { case 0: return g.i( -4, 4 ) * 90; case 1: return g.real( std::pow( 10.0, g.i( -11, -3 ) ) ); case 2: return g.i( -12, 12 ) * 30; default: return g.real( 360 ); } }
template< typename T > static quat_< T > rot( const vec3_< T >& a, double d ) { double h = d * M_PI / 360; return quat_< T >( T( std::cos( h ) ), T( a.x * std::sin( h ) ), T( a.y * std::sin( h ) ), T( a.z * std::sin( h ) ) ); }
// Rodrigues' formula in double
static vec3d turn( vec3d a, double d, vec3d v ) { double r = d * M_PI / 180, c = std::cos( r ), s = std::sin( r ); vec3d x( a.y * v.z - a.z * v.y, a.z * v.x - a.x * v.z, a.x * v.y - a.y * v.x ); double p = a.x * v.x + a.y * v.y + a.z * v.z; return vec3d( v.x * c + x.x * s + a.x * p * ( 1 - c ), v.y * c + x.y * s + a.y * p * ( 1 - c ), v.z * c + x.z * s + a.z * p * ( 1 - c ) ); }
#define NEAR3( got_, want_, tol_ ) do { vec3d g_( got_ ), w_( want_ ); double d_ = std::sqrt( ( g_.x - w_.x ) * ( g_.x - w_.x ) + ( g_.y - w_.y ) * ( g_.y - w_.y ) + ( g_.z - w_.z ) * ( g_.z - w_.z ) ); if ( !( d_ <= ( tol_ ) ) ) FAIL( #got_ " ~ " #want_ ": off by " + pbt::show( d_ ) ); } while ( 0 )
template< typename Q1, typename Q2 > static double quat_gap( const Q1& a, const Q2& b ) { // rotations: q and -q are the same
	double d = 0, e = 0, x[ 4 ] = { (double)a.w, (double)a.x, (double)a.y, (double)a.z }, y[ 4 ] = { (double)b.w, (double)b.x, (double)b.y, (double)b.z }; for ( int i = 0; i < 4; ++i ) { d += ( x[ i ] - y[ i ] ) * ( x[ i ] - y[ i ] ); e += ( x[ i ] + y[ i ] ) * ( x[ i ] + y[ i ] ); } return std::sqrt( std::min( d, e ) ); }
#define NEARQ( got_, want_, tol_ ) do { double d_ = quat_gap( got_, want_ ); if ( !( d_ <= ( tol_ ) ) ) FAIL( #got_ " ~ " #want_ ": off by " + pbt::show( d_ ) ); } while ( 0 )
template< typename T > static void note( Gen& g, const vec3_< T >& a, double d ) { g.note( "axis x", a.x ).note( "axis y", a.y ).note( "axis z", a.z ).note( "degrees", d ); g.nontrivial( std::fabs( std::sin( d * M_PI / 180 ) ) > 1e-3 ); }

template< typename T > static void rotations( Gen& g, double eps ) {
	auto a = dir< T >( g ), b = dir< T >( g ); double da = ang( g ), db = ang( g ); note( g, a, da ); auto qa = rot( a, da ), qb = rot( b, db ); T m = T( pow2( g, -40, 40 ) * g.positive( 0.1, 100 ) ); auto v = m * dir< T >( g ); vec3d vd( v ); double tol = 20 * eps * m;
	NEAR3( qa * v, turn( vec3d( a ), da, vd ), tol ); // a unit quaternion rotates about its axis
	CHECK_CLOSE( length( qa * v ), m, 20 * eps, 0 ); NEAR3( ( qa * qb ) * v, turn( vec3d( a ), da, turn( vec3d( b ), db, vd ) ), 2 * tol ); NEAR3( -qa * ( qa * v ), vd, 2 * tol ); // composition, inverse
	auto id = quat_< T >::identity(); NEAR3( id * v, vd, tol ); NEARQ( qa * -qa, id, 20 * eps ); NEARQ( qa * id, qa, eps ); CHECK_CLOSE( length( qa * qb ), 1, 0, 20 * eps ); NEAR3( quat_< T >() * v, vd, tol ); { quat_< T > dq; CHECK( dq.w == 1 && dq.x == 0 && dq.y == 0 && dq.z == 0 ); CHECK( is_normalized( dq ) ); CHECK( !is_normalized( quat_< T >( dq.w, T( 0.1 ), dq.y, dq.z ) ) && !is_normalized( quat_< T >( T( qa.w * 0.9 ), T( qa.x * 0.9 ), T( qa.y * 0.9 ), T( qa.z * 0.9 ) ) ) ); quat_< T > zq( 0, 0, 0, 0 ); auto zn = normalized( zq ); CHECK( zn.w == 0 && zn.x == 0 && zn.y == 0 && zn.z == 0 ); normalize( zq ); CHECK( zq.w == 0 && zq.x == 0 && zq.y == 0 && zq.z == 0 ); }
	if ( is_normalized< T >( a ) ) { NEARQ( quat_from_axis_angle( a, deg( T( da ) ) ), qa, 20 * eps ); NEARQ( quat_from_axis_angle( a, rad( T( da * M_PI / 180 ) ) ), qa, 20 * eps ); } CHECK_THROWS( quat_from_axis_angle( a * T( 1.5 ), deg( T( da ) ) ) );
	T k = T( ( sizeof( T ) == 8 ? pow2( g, -30, 40 ) : pow2( g, -10, 30 ) ) * g.positive( 0.01, 100 ) ); quat_< T > sc( qa.w * k, qa.x * k, qa.y * k, qa.z * k ); auto n = normalized( sc ); CHECK_CLOSE( length( n ), 1, 0, 20 * eps ); NEARQ( n, qa, 20 * eps ); CHECK( n.w * qa.w + n.x * qa.x + n.y * qa.y + n.z * qa.z > 0 ); CHECK_CLOSE( length( sc ), k, 20 * eps, 0 ); auto c = sc; CHECK( &normalize( c ) == &c ); NEARQ( c, n, 20 * eps ); CHECK( c.w * qa.w + c.x * qa.x + c.y * qa.y + c.z * qa.z > 0 );
	auto q = quat_from_quats( qa, qb ); NEARQ( qa * q, qb, 40 * eps ); // rotation between two orientations
	quat_< double > wide( qa ); NEARQ( wide, qa, 0 ); quat_< float > nar; nar = qb; NEARQ( nar, qb, 1e-6 ); std::ostringstream o; o << quat_< T >( 1, 2, 3, 4 ); CHECK_EQ( o.str(), string( "1 2 3 4" ) );
}
LAW( rotations_double, 360000 ) { rotations< double >( g, 1e-13 ); }
LAW( rotations_float, 240000 ) { rotations< float >( g, 1e-6 ); }

template< typename T > static void directions( Gen& g, double tol, double tiny ) {
	auto s = dir< T >( g ); vec3_< T > t; size_t kind = g.weighted( { 3, 1, 2, 3, 2 } );
	auto off = dir< T >( g ); double mag = std::pow( 10.0, g.real( std::log10( tiny ), -1 ) );
	switch ( kind ) { case 0: t = dir< T >( g ); break; case 1: t = s; break; case 2: t = -s; break; case 3: t = -s + T( mag ) * off; break; default: t = s + T( mag ) * off; }
	T k1 = (T)g.positive( 0.1, 10 ), k2 = (T)g.positive( 0.1, 10 ); if ( sizeof( T ) == 8 ) { k1 *= T( pow2( g, -25, 40 ) ); k2 *= T( pow2( g, -25, 40 ) ); } if ( g.chance( 1, 3 ) ) k1 = k2 = 1; if ( length( t ) < 0.05 ) return; g.note( "kind", kind ).note( "sx", s.x ).note( "sy", s.y ).note( "sz", s.z ).note( "tx", t.x ).note( "ty", t.y ).note( "tz", t.z ).note( "k1", k1 ).note( "k2", k2 ); g.nontrivial( kind != 1 ); g.label( "opposite", kind == 2 || kind == 3 );
	auto q = quat_from_directions( k1 * s, k2 * t ); vec3d td( t ); double l = std::sqrt( td.x * td.x + td.y * td.y + td.z * td.z ); vec3d want( td.x / l, td.y / l, td.z / l );
	CHECK_CLOSE( length( q ), 1, 0, tol ); NEAR3( q * s, want, tol );
	// the shortest rotation: the axis is perpendicular to both
	double dot = (double)q.x * s.x + (double)q.y * s.y + (double)q.z * s.z; CHECK_CLOSE( dot, 0, 0, tol ); CHECK( q.w >= -tol );
}
LAW( directions_double, 450000 ) { directions< double >( g, 1e-6, 1e-17 ); }
LAW( directions_float, 240000 ) { directions< float >( g, 5e-3, 1e-8 ); }

LAW( conversions, 450000 )
{
	auto a = dir< double >( g ); double d = ang( g ); note( g, a, d ); auto q = rot( a, d ); double tol = 1e-7; vec3d v = dir< double >( g );
	auto aa = axis_angle_from_quat( q ); CHECK_CLOSE( length( aa.first ), 1, 0, 1e-9 ); CHECK( aa.second.value >= -1e-9 && aa.second.value <= 2 * M_PI + 1e-9 ); NEAR3( turn( aa.first, aa.second.value * 180 / M_PI, v ), q * v, tol );
	auto rv = rotation_vector_from_quat( q ); double rl = length( rv ); if ( rl > 1e-9 ) NEAR3( turn( rv / rl, rl * 180 / M_PI, v ), q * v, tol ); else NEAR3( q * v, v, tol ); if ( std::fabs( d ) < 179 && std::fabs( d ) > 1e-12 ) { const double w = d * M_PI / 180; NEAR3( rv / w, a, 1e-9 ); CHECK_CLOSE( aa.second.value, std::fabs( w ), 1e-9, 0 ); NEAR3( aa.first, d < 0 ? -a : a, 1e-9 ); }
	auto x = q * vec3d::unit_x(), y = q * vec3d::unit_y(), z = q * vec3d::unit_z(); auto back = quat_from_axes( x, y, z ); NEARQ( back, q, tol ); NEAR3( back * v, q * v, tol );
	auto e = euler_from_quat( q ); auto near_angle = [&]( double got, double sy, double cy ) { if ( std::hypot( sy, cy ) < 1e-4 ) return true; double w = std::atan2( sy, cy ), f = std::fabs( got - w ); return std::min( f, std::fabs( f - 2 * M_PI ) ) < 1e-6; };
	CHECK( near_angle( pitch( q ).value, y.z, y.y ) ); CHECK( near_angle( yaw( q ).value, z.x, z.z ) ); CHECK( near_angle( roll( q ).value, x.y, x.x ) ); CHECK_EQ( e.x.value, pitch( q ).value ); CHECK_EQ( e.y.value, yaw( q ).value ); CHECK_EQ( e.z.value, roll( q ).value );
}

// with floats: every conversion and back to a few thousandths
LAW( conversions_float, 150000 )
{
	auto a = dir< float >( g ); double d = ang( g ); note( g, a, d ); auto q = rot( a, d ); vec3d v = dir< double >( g ), want = turn( vec3d( a ), d, v ); const double tol = 4e-3;
	auto x = q * vec3f::unit_x(), y = q * vec3f::unit_y(), z = q * vec3f::unit_z(); auto back = quat_from_axes( x, y, z ); CHECK_CLOSE( length( back ), 1, 0, tol ); NEARQ( back, q, tol );
	auto aa = axis_angle_from_quat( q ); CHECK_CLOSE( length( aa.first ), 1, 0, 1e-4 ); NEAR3( turn( vec3d( aa.first ), aa.second.value * 180.0 / M_PI, v ), want, tol );
	auto rv = rotation_vector_from_quat( q ); double rl = length( vec3d( rv ) ); if ( rl > 1e-6 ) NEAR3( turn( vec3d( rv ) / rl, rl * 180 / M_PI, v ), want, tol ); else NEAR3( want, v, tol );
	double ex = ang( g ), ey = ang( g ), ez = ang( g ); auto e = quat_from_euler( deg( (float)ex ), deg( (float)ey ), deg( (float)ez ) ); NEAR3( quatd( e ) * v, turn( vec3d::unit_x(), ex, turn( vec3d::unit_y(), ey, turn( vec3d::unit_z(), ez, v ) ) ), tol );
}

LAW( single_axis_angles, 180000 )
{
	double d = g.real( 179 ); int k = (int)g.below( 3 ); note( g, vec3d::unit( k ), d ); auto q = rot( vec3d::unit( k ), d ); auto e = euler_from_quat( q ); // rotation about one axis: that angle
	CHECK_CLOSE( rad_to_deg( k == 0 ? e.x.value : k == 1 ? e.y.value : e.z.value ), d, 0, 1e-6 ); if ( std::fabs( d ) < 89 ) { CHECK_CLOSE( k == 0 ? e.y.value : e.x.value, 0, 0, 1e-6 ); CHECK_CLOSE( k == 2 ? e.y.value : e.z.value, 0, 0, 1e-6 ); }
}

LAW( euler, 450000 )
{
	double ex = ang( g ), ey = ang( g ), ez = ang( g ); euler_order o = g.pick( { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx } ); g.note( "x", ex ).note( "y", ey ).note( "z", ez ).note( "order", (int)o ); g.nontrivial( ex != 0 && ey != 0 && ez != 0 );
	vec3d X = vec3d::unit_x(), Y = vec3d::unit_y(), Z = vec3d::unit_z(), v = dir< double >( g ); const char* names[] = { "xyz", "xzy", "yxz", "yzx", "zxy", "zyx" }; vec3d w = v; for ( int i = 2; i >= 0; --i ) switch ( names[ (int)o ][ i ] ) { case 'x': w = turn( X, ex, w ); break; case 'y': w = turn( Y, ey, w ); break; default: w = turn( Z, ez, w ); }
	auto q = g.coin() ? quat_from_euler( deg( ex ), deg( ey ), deg( ez ), o ) : quat_from_euler( rad( ex * M_PI / 180 ), rad( ey * M_PI / 180 ), rad( ez * M_PI / 180 ), o ); NEAR3( q * v, w, 1e-11 ); CHECK_CLOSE( length( q ), 1, 0, 1e-12 );
	if ( o == euler_order::xyz ) NEARQ( quat_from_euler( deg( ex ), deg( ey ), deg( ez ) ), q, 1e-12 ); vec3_< degree_< double > > eu( deg( ex ), deg( ey ), deg( ez ) ); NEARQ( quat_from_euler( eu, o ), q, 1e-12 );
}
