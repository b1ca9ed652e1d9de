#include "common.hpp"
#include "flut/math/transform.hpp"
PROPERTY( "C28", "rigid transforms with positions up to 100 and general, axis-aligned or identity orientations, applied to points, orientations and each other. Non-trivial: both position and orientation differ from identity." )
using namespace flut::math;
template< typename T > static quat_< T > q_( Gen& g ) { if ( g.chance( 1, 6 ) ) return quat_< T >::identity(); quat_< T > q( (T)g.real( 1 ), (T)g.real( 1 ), (T)g.real( 1 ), (T)g.real( 1 ) ); if ( length( q ) < 0.1 ) return quat_< T >( 0, 1, 0, 0 ); return normalized( q ); }
template< typename T > static vec3_< T > v_( Gen& g, double sc ) { return vec3_< T >( T( sc * g.real( 100 ) ), T( sc * g.real( 100 ) ), T( sc * g.real( 100 ) ) ); }
#define NEAR3( got_, want_, tol_ ) do { vec3d g_( got_ ), w_( want_ ); double d_ = distance( g_, w_ ); if ( !( d_ <= ( tol_ ) ) ) FAIL( #got_ " ~ " #want_ ": off by " + pbt::show( d_ ) ); } while ( 0 )
#define NEARQ( got_, want_, tol_ ) do { quatd g_( got_ ), w_( want_ ); double d_ = std::sqrt( std::pow( g_.w - w_.w, 2 ) + std::pow( g_.x - w_.x, 2 ) + std::pow( g_.y - w_.y, 2 ) + std::pow( g_.z - w_.z, 2 ) ); if ( !( d_ <= ( tol_ ) ) ) FAIL( #got_ " ~ " #want_ ": off by " + pbt::show( d_ ) ); } while ( 0 )
template< typename T > static void run( Gen& g, double eps ) {
	using tf = transform_< T >; const double sc = pow2( g, -40, 40 ); auto p = v_< T >( g, sc ), pb = v_< T >( g, sc ), v = v_< T >( g, sc ); auto q = q_< T >( g ), qb = q_< T >( g ), o = q_< T >( g ); tf a( p, q ), b( pb, qb ), id = tf::identity(); double tol = 1000 * eps * sc; g.note( "px", p.x ).note( "py", p.y ).note( "qw", q.w ).note( "qx", q.x ).note( "vx", v.x ); g.nontrivial( !p.is_null() && q.w != 1 );
	// a point is rotated, then moved
	vec3_< T > want = q * v; want.x += p.x; want.y += p.y; want.z += p.z; NEAR3( a * v, want, tol ); NEAR3( a.transform( v ), want, tol ); NEAR3( a.inv_transform( a * v ), v, 2 * tol ); NEAR3( a * a.inv_transform( v ), v, 2 * tol );
	CHECK_CLOSE( distance( a * v, a * pb ), distance( v, pb ), 0, 2 * tol ); // rigid
	NEAR3( ( a * b ) * v, a * ( b * v ), 4 * tol ); NEAR3( a.transform( b ) * v, a * ( b * v ), 4 * tol ); NEARQ( ( a * b ).q, q * qb, 1000 * eps );
	NEAR3( ( -a ) * ( a * v ), v, 2 * tol ); NEAR3( a.inverse() * v, a.inv_transform( v ), 2 * tol ); auto e = a * a.inverse(); NEAR3( e.p, vec3d::zero(), 2 * tol ); NEARQ( e.q, quatd::identity(), 100 * eps ); auto e2 = a.inverse() * a; NEAR3( e2.p, vec3d::zero(), 2 * tol );
	NEAR3( a.inv_transform( b ) * v, a.inv_transform( b * v ), 4 * tol ); NEAR3( a.inv_transform( a * b ) * v, b * v, 4 * tol );
	NEARQ( a * o, q * o, 100 * eps ); NEARQ( a.transform( o ), q * o, 100 * eps ); NEARQ( a.inv_transform( a * o ), o, 100 * eps );
	NEAR3( id * v, v, tol ); NEAR3( ( id * a ) * v, a * v, tol ); NEAR3( ( a * id ) * v, a * v, tol ); NEAR3( tf() * v, v, tol ); NEAR3( tf( p ) * v, v + p, tol ); NEAR3( tf( q ) * v, q * v, tol );
}
LAW( transforms_double, 750000 ) { run< double >( g, 1e-13 ); }
LAW( transforms_float, 450000 ) { run< float >( g, 1e-6 ); }
