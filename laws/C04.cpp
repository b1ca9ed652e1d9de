#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
#include "flut/math/transform.hpp"
PROPERTY( "C04", "values of every supported type (all integer widths at their limits, bool, float up to 1e38 and double up to 1e300, strings of any bytes, enums, paths, vectors and nested vectors, vec3/quat/transform) written as text or into a prop_node and read back. Non-trivial: a value other than zero, empty or a single digit." )
using std::string; using std::vector; using flut::prop_node;
enum class colour { red, green = 7, blue = -3, big = 2147483647 };
enum plain { p_zero, p_one, p_last = 1000 };

template< typename T > static void int_case( Gen& g, T v ) {
	g.note( "value", (long long)v ); g.nontrivial( v > 9 || v < 0 );
	string t = flut::to_str( v );
	CHECK_EQ( t, std::to_string( v ) );
	CHECK_EQ( flut::from_str< T >( t ), v );
	prop_node pn; pn.set( "k", v ); CHECK_EQ( pn.get< T >( "k" ), v );
	pn.set_value( v ); CHECK_EQ( pn.get< T >(), v ); CHECK_EQ( pn.get_value(), t );
	prop_node q; q = v; CHECK_EQ( q.get< T >(), v );
	if ( g.chance( 1, 4 ) ) { string z = t; z.insert( v < 0 ? 1 : 0, 1 + g.below( 4 ), '0' ); g.note( "padded", z ); CHECK_EQ( flut::from_str< T >( z ), v ); prop_node p( z ); CHECK_EQ( p.get< T >(), v ); } // leading zeros mean nothing
	CHECK_EQ( pn.get< T >( "k", T( 5 ) ), v );
	CHECK_EQ( pn.get< T >( "absent", T( 5 ) ), T( 5 ) );
}

LAW( integers, 200000 )
{
	size_t k = g.below( 8 ); g.note( "type", k );
	switch ( k ) {
	case 0: int_case< int >( g, (int)g.i64( INT32_MIN, INT32_MAX ) ); break;
	case 1: int_case< unsigned >( g, (unsigned)g.u64( 0, UINT32_MAX ) ); break;
	case 2: int_case< long >( g, g.i64( INT64_MIN, INT64_MAX ) ); break;
	case 3: int_case< long long >( g, g.i64( INT64_MIN, INT64_MAX ) ); break;
	case 4: int_case< unsigned long >( g, g.u64( 0, UINT64_MAX ) ); break;
	case 5: int_case< unsigned long long >( g, g.u64( 0, UINT64_MAX ) ); break;
	case 6: int_case< short >( g, (short)g.i64( INT16_MIN, INT16_MAX ) ); break;
	default: int_case< unsigned short >( g, (unsigned short)g.u64( 0, UINT16_MAX ) );
	}
	bool b = g.coin(); CHECK_EQ( flut::from_str< bool >( flut::to_str( b ) ), b );
	colour c = g.pick( { colour::red, colour::green, colour::blue, colour::big } );
	CHECK( flut::from_str< colour >( flut::to_str( c ) ) == c );
	plain p = g.pick( { p_zero, p_one, p_last } );
	prop_node pn; pn.set( "e", c ).set( "b", b ).set( "p", p );
	CHECK( pn.get< colour >( "e" ) == c ); CHECK_EQ( pn.get< bool >( "b" ), b ); CHECK( pn.get< plain >( "p" ) == p );
}

LAW( reals, 200000 )
{
	double mag = g.pick( { 1.0, 1000.0, 1e6, 1e15, 1e20, 1e100, 1e300 } );
	double d = g.real( mag ); float f = (float)g.real( std::min( mag, g.pick( { 1e9, 1e38 } ) ) );
	g.note( "double", d ).note( "float", f ); g.nontrivial( d != std::floor( d ) );
	string td = flut::to_str( d ), tf = flut::to_str( f );
	double td_err = 5.01e-7 + 4e-16 * std::fabs( d ), tf_err = 5.01e-7 + 1.3e-7 * std::fabs( f );
	CHECK_CLOSE( flut::from_str< double >( td ), d, 0, td_err );
	CHECK_CLOSE( flut::from_str< float >( tf ), f, 0, tf_err );
	prop_node pn; pn.set( "d", d ).set( "f", f );
	CHECK_CLOSE( pn.get< double >( "d" ), d, 0, td_err ); CHECK_CLOSE( pn.get< float >( "f" ), f, 0, tf_err );
	CHECK_CLOSE( pn.get< double >( "d", 3.0 ), d, 0, td_err ); CHECK_EQ( pn.get< double >( "x", d ), d );
	// multiples of 1/64 have at most six decimals: exact
	double e = (double)g.i64( -1000000000, 1000000000 ) / 64; g.note( "exact", e );
	CHECK_EQ( flut::from_str< double >( flut::to_str( e ) ), e );
	prop_node q; q.set_value( e ); CHECK_EQ( q.get< double >(), e );
	if ( std::fabs( d ) < 1e-30 ) d = 0; // no subnormal text
	// text in any usual notation reads as the nearest value
	char buf[ 64 ]; snprintf( buf, sizeof buf, g.pick( { "%.17g", "%.3e", "%.9f", "%+.5g", " %.12g" } ), d );
	g.note( "text", string( buf ) );
	CHECK_EQ( flut::from_str< double >( buf ), strtod( buf, nullptr ) );
	if ( std::fabs( d ) < 1e38 ) CHECK_EQ( flut::from_str< float >( buf ), strtof( buf, nullptr ) );
	{ string m = between_floats( g ); g.note( "between floats", m ); prop_node p( m ); CHECK_EQ( flut::from_str< float >( m ), strtof( m.c_str(), nullptr ) ); CHECK_EQ( p.get< float >(), strtof( m.c_str(), nullptr ) ); CHECK_EQ( flut::from_str< double >( m ), strtod( m.c_str(), nullptr ) ); }
}

LAW( strings_and_paths, 150000 )
{
	string s = g.str( 200, "ab \t\n={}\"\\.", true ); g.note( "s", s ); g.nontrivial( s.size() > 1 );
	CHECK_EQ( flut::to_str( s ), s ); CHECK_EQ( flut::from_str< string >( s ), s );
	CHECK_EQ( flut::to_str( s.c_str() ), s ); { const char* t = flut::from_str< const char* >( s ); CHECK( t && s == t ); }
	prop_node pn; pn.set( "k", s ); pn.push_back( "p", flut::path( s ) );
	CHECK_EQ( pn.get< string >( "k" ), s ); CHECK_EQ( pn.get< flut::path >( "p" ).str(), s );
	CHECK_EQ( pn.get< string >( "k", "def" ), s ); CHECK_EQ( pn.get< string >( "nokey", s ), s );
	prop_node v; v.set_value( s ); CHECK_EQ( v.get_value(), s ); CHECK_EQ( v.has_value(), !s.empty() );
	pn.push_back( "lit", "some literal" ); CHECK_EQ( pn.get< string >( "lit" ), string( "some literal" ) );
	// text without a number does not convert to one of the checked types
	string bad = g.str( 8, "xyz_!{", false ); g.note( "bad", bad );
	CHECK_THROWS( flut::from_str< double >( bad ) ); CHECK_THROWS( flut::from_str< float >( bad ) );
	CHECK_THROWS( flut::from_str< long >( bad ) ); CHECK_THROWS( flut::from_str< unsigned long long >( bad ) ); CHECK_THROWS( flut::from_str< long long >( bad ) ); CHECK_THROWS( flut::from_str< unsigned long >( bad ) );
	CHECK_EQ( flut::string_is< double >( bad ), false ); CHECK_EQ( flut::string_is< long >( bad ), false ); CHECK_EQ( flut::string_is< float >( bad ), false ); CHECK_EQ( flut::string_is< unsigned long long >( bad ), false ); CHECK( flut::string_is< string >( bad ) );
	string good = std::to_string( g.i( -100000, 100000 ) );
	CHECK_EQ( flut::string_is< double >( good ), true ); CHECK_EQ( flut::string_is< long >( good ), true );
}

LAW( vectors, 100000 )
{
	vector< int > vi; vector< string > vs; vector< double > vd; vector< vector< long > > vv;
	if ( g.chance( 1, 40 ) ) for ( size_t i = g.size( 2000 ); i > 0; --i ) vi.push_back( int( i * 7919 % 10007 ) ); // very long ones too
	{ Seq s( g, 120 ); while ( s.more() ) vi.push_back( g.i( -100000, 100000 ) ); }
	{ Seq s( g, 20 ); while ( s.more() ) vs.push_back( g.str( 10, "ab ={};", true ) ); }
	{ Seq s( g, 20 ); while ( s.more() ) vd.push_back( g.i( -100000, 100000 ) / 64.0 ); }
	{ Seq s( g, 6 ); while ( s.more() ) { vv.emplace_back(); Seq t( g, 5 ); while ( t.more() ) vv.back().push_back( g.i64( INT64_MIN, INT64_MAX ) ); } }
	g.note( "ints", vi ).note( "strings", vs ); g.nontrivial( vi.size() > 1 || vs.size() > 1 );
	prop_node pn; pn.set( "i", vi ).set( "s", vs ).set( "d", vd ).set( "v", vv );
	CHECK_EQ( pn.get< vector< int > >( "i" ), vi ); CHECK_EQ( pn.get< vector< string > >( "s" ), vs );
	CHECK_EQ( pn.get< vector< double > >( "d" ), vd ); CHECK( pn.get< vector< vector< long > > >( "v" ) == vv );
	CHECK_EQ( pn.get_child( "i" ).size(), vi.size() );
	vector< int > dv{ 1, 2, 3 }; CHECK_EQ( pn.get< vector< int > >( "i", dv ), vi ); CHECK_EQ( pn.get< vector< int > >( "missing", dv ), dv ); CHECK_EQ( pn.get_any< vector< int > >( { "missing", "i" }, dv ), vi );
	vector< flut::path > vp; for ( auto& s : vs ) vp.emplace_back( s ); pn.set( "p", vp ); auto vp2 = pn.get< vector< flut::path > >( "p" ); CHECK_EQ( vp2.size(), vp.size() ); for ( size_t i = 0; i < vp.size(); ++i ) CHECK_EQ( vp2[ i ].str(), vp[ i ].str() );
	// delimited text of numbers
	string text; for ( size_t i = 0; i < vi.size(); ++i ) { if ( i ) text += g.pick( { " ", "  ", "\t", "\n" } ); text += std::to_string( vi[ i ] ); }
	CHECK_EQ( flut::str_to_vec< int >( text, flut::no_index ), vi );
	size_t lim = g.size( vi.size() + 2 ); g.note( "limit", lim );
	CHECK_EQ( flut::str_to_vec< int >( text, lim ), vector< int >( vi.begin(), vi.begin() + std::min( lim, vi.size() ) ) );
}

LAW( geometry, 100000 )
{
	auto r = [&]() { return g.i( -1000000, 1000000 ) / 64.0; };
	flut::math::vec3d v( r(), r(), r() ); flut::math::quatd q( r(), r(), r(), r() ); flut::math::transformd t( v, q );
	g.note( "x", v.x ).note( "y", v.y ).note( "z", v.z ).note( "qw", q.w ); g.nontrivial( !v.is_null() );
	prop_node pn; pn.set( "v", v ).set( "q", q ).set( "t", t );
	auto v2 = pn.get< flut::math::vec3d >( "v" ); CHECK( v2.x == v.x && v2.y == v.y && v2.z == v.z );
	auto q2 = pn.get< flut::math::quatd >( "q" ); CHECK( q2.w == q.w && q2.x == q.x && q2.y == q.y && q2.z == q.z );
	auto t2 = pn.get< flut::math::transformd >( "t" );
	CHECK( t2.p.x == v.x && t2.p.y == v.y && t2.p.z == v.z && t2.q.w == q.w && t2.q.x == q.x && t2.q.y == q.y && t2.q.z == q.z );
	flut::math::vec3f vf( (float)( v.x / 64 ), (float)v.y, (float)v.z ); flut::math::quatf qf( (float)q.w, (float)q.x, (float)q.y, (float)( q.z ) ); prop_node pf; pf.set( "v", vf ).set( "q", qf );
	auto vf2 = pf.get< flut::math::vec3f >( "v" ); CHECK_CLOSE( vf2.x, vf.x, 1e-6, 1e-6 ); CHECK_CLOSE( vf2.y, vf.y, 1e-6, 1e-6 ); CHECK_CLOSE( vf2.z, vf.z, 1e-6, 1e-6 );
	auto qf2 = pf.get< flut::math::quatf >( "q" ); CHECK_CLOSE( qf2.w, qf.w, 1e-6, 1e-6 ); CHECK_CLOSE( qf2.x, qf.x, 1e-6, 1e-6 ); CHECK_CLOSE( qf2.y, qf.y, 1e-6, 1e-6 ); CHECK_CLOSE( qf2.z, qf.z, 1e-6, 1e-6 );
	prop_node w; w.set_value( std::to_string( v.x ) + " " + std::to_string( v.y ) + " " + std::to_string( v.z ) );
	auto v3 = w.get< flut::math::vec3d >(); CHECK( v3.x == v.x && v3.y == v.y && v3.z == v.z );
}

LAW( first_of_several_keys, 100000 )
{
	vector< string > pool = { "a", "b", "c", "d", "ab", "A" }; for ( Seq o( g, 4 ); o.more(); ) pool.push_back( g.str( 12, "ab_.", true ) );
	prop_node pn; std::map< string, int > first; Seq s( g, 16 ); int n = 10;
	vector< string > keys;
	while ( s.more() ) { string k = g.pick( pool ); pn.push_back( k, n ); first.insert( { k, n } ); keys.push_back( k ); ++n; }
	string k1 = g.pick( pool ), k2 = g.pick( pool ), k3 = g.pick( pool );
	g.note( "keys", keys ).note( "k1", k1 ).note( "k2", k2 ).note( "k3", k3 ); g.nontrivial( keys.size() > 1 );
	int want = -1; for ( auto& k : { k1, k2, k3 } ) if ( want < 0 && first.count( k ) ) want = first[ k ];
	CHECK_EQ( pn.get_any< int >( { k1, k2, k3 }, -1 ), want ); CHECK_EQ( pn.get_any< int >( { k2 }, -5 ), first.count( k2 ) ? first[ k2 ] : -5 ); CHECK_EQ( pn.get_any< int >( {}, -6 ), -6 );
	if ( want >= 0 ) { CHECK_EQ( pn.get_any< string >( { k1, k2, k3 }, string( "none" ) ), std::to_string( want ) ); CHECK_EQ( pn.get_any< double >( { k1, k2, k3 } ), (double)want ); }
	if ( want < 0 ) CHECK_THROWS( pn.get_any< int >( { k1, k2, k3 } ) ); else CHECK_EQ( pn.get_any< int >( { k1, k2, k3 } ), want );
	CHECK_EQ( pn.get< int >( k1, -1 ), first.count( k1 ) ? first[ k1 ] : -1 );
	if ( !first.count( k1 ) ) CHECK_THROWS( pn.get< int >( k1 ) ); else CHECK_EQ( pn.get< int >( k1 ), first[ k1 ] );
}

// the INIT_PROP / SET_PROP macros name a property after the variable, without member prefix and underscores
struct settings {
	int count_ = 1; double m_size = 2; string _name = "x"; bool flag = false; int limit = 3; string named;
	void init( const prop_node& pn, int dc, double ds, const string& dn, bool df ) { INIT_PROP( pn, count_, dc ); INIT_PROP( pn, m_size, ds ); INIT_PROP( pn, _name, dn ); INIT_PROP( pn, flag, df ); INIT_PROP_NAMED( pn, named, "other", "none" ); }
	void required( const prop_node& pn ) { INIT_PROP_REQUIRED( pn, count_ ); INIT_PROP_NAMED_REQUIRED( pn, limit, "max" ); }
	prop_node save() { prop_node pn; SET_PROP( pn, count_ ); SET_PROP( pn, m_size ); SET_PROP( pn, _name ); SET_PROP( pn, flag ); SET_PROP_NAMED( pn, limit, "max" ); return pn; }
};
LAW( settings_macros, 100000 )
{
	prop_node pn; bool hc = g.coin(), hs = g.coin(), hn = g.coin(), hf = g.coin(), ho = g.coin(), hm = g.coin(); int c = g.i( -1000, 1000 ), dc = g.i( -9, 9 ), m = g.i( -1000, 1000 ); double s = g.i( -1000, 1000 ) / 8.0, ds = g.i( -9, 9 ); string n = g.str( 10, "ab ", true ), dn = g.str( 4, "cd" ); bool f = g.coin(), df = g.coin();
	if ( hc ) pn.set( "count", c ); if ( hs ) pn.set( "size", s ); if ( hn ) pn.set( "name", n ); if ( hf ) pn.set( "flag", f ); if ( ho ) pn.set( "other", n ); if ( hm ) pn.set( "max", m ); g.note( "count", hc ).note( "size", hs ).note( "name", hn ).note( "flag", hf ).note( "c", c ).note( "n", n ); g.nontrivial( hc != hs || hn != hf );
	settings x; x.init( pn, dc, ds, dn, df ); CHECK_EQ( x.count_, hc ? c : dc ); CHECK_EQ( x.m_size, hs ? s : ds ); CHECK_EQ( x._name, hn ? n : dn ); CHECK_EQ( x.flag, hf ? f : df ); CHECK_EQ( x.named, ho ? n : string( "none" ) );
	settings y; if ( hc && hm ) { y.required( pn ); CHECK_EQ( y.count_, c ); CHECK_EQ( y.limit, m ); } else CHECK_THROWS( y.required( pn ) );
	prop_node o = x.save(); CHECK_EQ( o.size(), size_t( 5 ) ); settings z; z.init( o, 0, 0, "", false ); z.required( o ); CHECK_EQ( z.count_, x.count_ ); CHECK_EQ( z.m_size, x.m_size ); CHECK_EQ( z._name, x._name ); CHECK_EQ( z.flag, x.flag ); CHECK_EQ( z.limit, x.limit );
}

// in every thread, whatever the others convert at the same time
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); vector< long > base; for ( int t = 0; t < n; ++t ) base.push_back( g.i( -1000000, 1000000 ) ); g.note( "values", base ); g.nontrivial( true );
	CHECK_EQ( wrong_in_threads( n, 150, [&]( int t, int k ) { long v = base[ t ] + k; double d = v / 64.0; string s = "text " + std::to_string( v ); prop_node pn; pn.set( "a", v ).set( "d", d ).set( "s", s ); pn.set( "v", vector< long >{ v, v + 1 } ); return flut::to_str( v ) == std::to_string( v ) && flut::from_str< double >( flut::to_str( d ) ) == d && pn.get< long >( "a" ) == v && pn.get< double >( "d" ) == d && pn.get< string >( "s" ) == s && pn.get< vector< long > >( "v" ) == vector< long >{ v, v + 1 }; } ), 0 );
}
