#include "common.hpp"
#include "flut/flag_set.hpp"
#include "flut/math/optional.hpp"
#include "flut/dictionary.hpp"
#include "flut/memoize.hpp"
#include "flut/memory_tools.hpp"
#include "flut/hash.hpp"
PROPERTY( "C22", "histories of flag changes over 32 and 64 bit sets, optional values of integer, floating-point and class types, dictionaries of up to 8 pairs, call sequences through memoized functions, texts and literals hashed, vectors of owned objects cloned. Non-trivial: at least two flags, pairs, calls or characters." )
using std::string; using std::vector;
enum class flag { a = 0, b = 1, c = 7, d = 15, e = 30, f = 31 }; enum class wide { a = 0, b = 31, c = 32, d = 40, e = 62, f = 63 };

template< typename E, typename S > static void flags( Gen& g, int bits ) {
	vector< E > all; for ( int i = 0; i < bits; ++i ) all.push_back( E( i ) ); flut::flag_set< E, S > f; std::set< int > m; if ( g.coin() ) { E x1 = g.pick( all ), x2 = g.pick( all ); flut::flag_set< E, S > x( { x1, x2 } ); if ( g.coin() ) f = x; else f = flut::flag_set< E, S >( x ); m = { (int)x1, (int)x2 }; }
	Seq s( g, 40 ); string log;
	while ( s.more() ) {
		E e = g.pick( all ), h = g.pick( all ); int k = (int)e; size_t op = g.weighted( { 5, 5, 3, 2, 2, 1, 1, 2 } ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + std::to_string( k );
		switch ( op ) {
		case 0: f.set( e ); m.insert( k ); break;
		case 1: f.set( e, false ); m.erase( k ); break;
		case 2: f.set( e, true ); m.insert( k ); break;
		case 3: f.set( { e, h } ); m.insert( k ); m.insert( (int)h ); break;
		case 4: f.clear( { e, h } ); m.erase( k ); m.erase( (int)h ); break;
		case 5: f.clear(); m.clear(); break;
		case 6: { auto c = f; c.set( e, !c.get( e ) ); CHECK_EQ( f.get( e ), m.count( k ) > 0 ); break; }
		default: f.template set< E::e >(); CHECK( f.template get< E::e >() ); f.template clear< E::d >(); CHECK( !f.template get< E::d >() ); f.template set< E::b >( false ); f.template set< E::f >( true ); m.insert( (int)E::e ); m.erase( (int)E::d ); m.erase( (int)E::b ); m.insert( (int)E::f );
		}
		for ( E x : all ) { CHECK_EQ( f.get( x ), m.count( (int)x ) > 0 ); CHECK_EQ( f( x ), m.count( (int)x ) > 0 ); } CHECK_EQ( f.any(), !m.empty() );
	}
	g.note( "ops", log ); g.nontrivial( m.size() > 1 );
}
LAW( flags_32, 80000 ) { flags< flag, unsigned >( g, 32 ); }
LAW( flags_64, 80000 ) { flags< wide, uint64_t >( g, 64 ); }

template< typename T > static void opt( Gen& g, T v, T w ) {
	flut::optional< T > o; CHECK( !o ); flut::optional< T > p( v ); CHECK( bool( p ) ); CHECK( *p == v ); o = v; CHECK( bool( o ) ); CHECK( *o == v ); o = w; CHECK( *o == w ); CHECK( *p == v );
	flut::optional< T > q( p ); CHECK( bool( q ) && *q == v ); o = flut::optional< T >(); CHECK( !o ); q = flut::optional< T >( w ); CHECK( bool( q ) && *q == w );
	{ T a( v ), b( w ); flut::optional< T > r( std::move( a ) ); CHECK( bool( r ) && *r == v ); auto& s = ( r = std::move( b ) ); CHECK( &s == &r ); CHECK( bool( r ) && *r == w ); flut::optional< T > n; n = T( v ); CHECK( bool( n ) && *n == v ); n = T( w ); CHECK( bool( n ) && *n == w ); n = r = v; CHECK( *n == v && *r == v ); }
}
template< typename T > static T special( Gen& g, T v ) { // also the ends of the range
	using L = std::numeric_limits< T >; if ( !g.chance( 1, 3 ) ) return v;
	switch ( g.below( 8 ) ) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::max(); case 3: return L::lowest(); case 4: return L::min(); case 5: return L::denorm_min(); case 6: return T( -0.0 ); default: return T( 0 ); }
}
template< typename T > static void opt_int( Gen& g ) { // every value except the one that marks "empty"
	const bool sg = std::numeric_limits< T >::is_signed; auto v = [&]() { return sg ? (T)g.i64( (int64_t)std::numeric_limits< T >::lowest() + 1, (int64_t)std::numeric_limits< T >::max() ) : (T)g.u64( 0, (uint64_t)std::numeric_limits< T >::max() - 1 ); };
	T a = v(), b = v(); g.note( "a", a ).note( "b", b ); g.nontrivial( a != 0 && a != b ); opt< T >( g, a, b );
}
LAW( optional_integers, 100000 ) { switch ( g.below( 6 ) ) { case 0: opt_int< short >( g ); break; case 1: opt_int< unsigned >( g ); break; case 2: opt_int< long >( g ); break; case 3: opt_int< unsigned short >( g ); break; case 4: opt_int< long long >( g ); break; default: opt_int< unsigned long long >( g ); } }
LAW( optional, 150000 )
{
	switch ( g.below( 6 ) ) {
	case 0: { int v = g.i( INT32_MIN + 1, INT32_MAX ); g.note( "int", v ); g.nontrivial( v != 0 ); opt< int >( g, v, g.i( INT32_MIN + 1, INT32_MAX ) ); string text = std::to_string( v ); flut::char_stream cs( text.c_str() ); flut::optional_int o; cs >> o; CHECK( bool( o ) && *o == v ); break; }
	case 1: { size_t v = g.u64( 0, UINT64_MAX - 1 ); g.note( "size", v ); g.nontrivial( v != 0 ); opt< size_t >( g, v, g.u64( 0, UINT64_MAX - 1 ) ); break; }
	case 2: { double v = special( g, g.real( 1e9 ) ); g.note( "double", v ); g.nontrivial( v != 0 ); opt< double >( g, v, special( g, g.real( 1e9 ) ) ); if ( std::fabs( v ) < 1e-300 || std::fabs( v ) > 1e300 ) return; std::stringstream ss; ss.precision( 17 ); ss << v; flut::optional_double o; ss >> o; CHECK( bool( o ) && *o == v ); break; }
	case 3: { float v = special( g, g.realf( 1e9f ) ); g.note( "float", v ); g.nontrivial( v != 0 ); opt< float >( g, v, special( g, g.realf( 1e9f ) ) ); std::stringstream ss( "abc" ); flut::optional_float o( v ); ss >> o; CHECK( bool( o ) && *o == v ); break; }
	case 4: { string v = g.str( 20, "ab", true ), w = g.str( 5, "ab" ); g.note( "string", v ); g.nontrivial( v.size() > 1 ); opt< string >( g, v, w ); break; }
	default: { std::pair< int, int > v( g.i( -5, 5 ), g.i( -5, 5 ) ); opt< std::pair< int, int > >( g, v, { 7, 7 } ); string bad = "x"; flut::char_stream cs( bad.c_str() ); flut::optional_int o; cs >> o; CHECK( !o ); flut::optional_int k( 5 ); flut::char_stream c2( bad.c_str() ); c2 >> k; CHECK( *k == 5 ); }
	}
}

LAW( dictionary, 100000 )
{
	string stem = g.chance( 1, 4 ) ? g.str( 24, "abA_ ", true ) : string(); // names that share a long beginning
	vector< std::pair< int, string > > m; Seq s( g, 8 ); while ( s.more() ) m.push_back( { g.i( -2, 9 ), g.chance( 1, 4 ) ? g.str( 3, "abA" ) : stem + g.pick( { "a", "b", "c", "dd", "e", "", "A" } ) } );
	bool big = g.chance( 1, 20 ); if ( big ) { for ( int i = 0; i < 40; ++i ) m.push_back( { 10 + i, "n" + std::to_string( i ) } ); m.resize( 40 ); } else if ( m.size() > 8 ) m.resize( 8 );
	flut::dictionary< int > d; auto P = [&]( size_t i ) { return m[ i ]; };
#define TEN( k ) P( k ), P( k + 1 ), P( k + 2 ), P( k + 3 ), P( k + 4 ), P( k + 5 ), P( k + 6 ), P( k + 7 ), P( k + 8 ), P( k + 9 )
	switch ( m.size() ) { case 40: d = flut::dictionary< int >( { TEN( 0 ), TEN( 10 ), TEN( 20 ), TEN( 30 ) } ); break; case 0: break; case 1: d = flut::make_dictionary< int >( { P( 0 ) } ); break; case 2: d = flut::dictionary< int >( { P( 0 ), P( 1 ) } ); break; case 3: d = flut::dictionary< int >( { P( 0 ), P( 1 ), P( 2 ) } ); break; case 4: case 5: m.resize( 4 ); d = flut::dictionary< int >( { P( 0 ), P( 1 ), P( 2 ), P( 3 ) } ); break; default: while ( m.size() < 8 ) m.push_back( m[ m.size() / 2 ] ); d = flut::dictionary< int >( { P( 0 ), P( 1 ), P( 2 ), P( 3 ), P( 4 ), P( 5 ), P( 6 ), P( 7 ) } ); }
	int k = g.i( -2, big ? 52 : 9 ); string n = g.chance( 1, 4 ) ? g.str( 3, "abA" ) : stem + g.pick( { "a", "b", "c", "d", "dd", "e", "", "A", "zz" } ); if ( !m.empty() && g.chance( 1, 3 ) ) n = m[ g.below( m.size() ) ].second; const string* by_k = nullptr; const int* by_n = nullptr; for ( auto& p : m ) { if ( !by_k && p.first == k ) by_k = &p.second; if ( !by_n && p.second == n ) by_n = &p.first; }
	string ms; for ( auto& p : m ) ms += std::to_string( p.first ) + "=" + p.second + " "; g.note( "pairs", ms ).note( "key", k ).note( "name", n ); g.nontrivial( m.size() > 1 );
	if ( by_k ) CHECK_EQ( d( k ), *by_k ); else CHECK_THROWS( d( k ) );
	if ( by_n ) CHECK_EQ( d( n ), *by_n ); else CHECK_THROWS( d( n ) );
	CHECK_EQ( d( n, -7 ), by_n ? *by_n : -7 );
	bool in = n == "a" || n == "dd" || n == "e"; auto look = [&]() { return flut::lookup< int >( n, { { "a", 1 }, { "dd", 2 }, { "e", 3 }, { "a", 4 } } ); }; if ( in ) CHECK_EQ( look(), n == "a" ? 1 : n == "dd" ? 2 : 3 ); else CHECK_THROWS( look() );
}

LAW( memoize, 100000 )
{
	std::map< std::pair< int, string >, int > calls; int total = 0; flut::memoize< int( int, string ) > f( [&]( int a, string b ) { ++calls[ { a, b } ]; ++total; return a * 31 + (int)b.size() * 1000 + ( b.empty() ? 0 : b[ 0 ] ); } );
	std::set< std::pair< int, string > > seen; bool many = g.chance( 1, 5 ); Seq s( g, many ? 400 : 40 ); int n = 0;
	while ( s.more() ) { int a = many ? g.i( -300, 300 ) : g.i( -3, 3 ); string b = many ? g.str( 3, "ab" ) : string( g.pick( { "", "a", "b", "ab", "ba" } ) ); seen.insert( { a, b } ); CHECK_EQ( f( a, b ), a * 31 + (int)b.size() * 1000 + ( b.empty() ? 0 : b[ 0 ] ) ); ++n; CHECK_EQ( total, (int)seen.size() ); }
	g.note( "calls", n ).note( "distinct", seen.size() ); g.nontrivial( n > 1 ); for ( auto& c : calls ) CHECK_EQ( c.second, 1 );
}

// a call that throws is not remembered; however many different calls there are, each is made once
LAW( memoize_faults, 4000 )
{
	std::map< long, int > calls; std::set< long > bad; flut::memoize< string( long ) > f( [&]( long a ) { ++calls[ a ]; if ( bad.count( a ) ) throw std::runtime_error( "no" ); return "v" + std::to_string( a ); } );
	long span = g.chance( 1, 40 ) ? 3000 : 12; size_t n = g.size( span > 12 ? 3000 : 60 ); std::set< long > known; int faults = 0, again = 0;
	for ( size_t i = 0; i < n; ++i ) {
		long a = span > 12 ? long( i ) : g.i64( 0, span ); if ( g.chance( 1, 4 ) ) { if ( bad.count( a ) ) bad.erase( a ); else bad.insert( a ); } int before = calls[ a ]; bool fresh = !known.count( a ), fail = fresh && bad.count( a );
		if ( fail ) { CHECK_THROWS( f( a ) ); ++faults; } else { CHECK_EQ( f( a ), "v" + std::to_string( a ) ); known.insert( a ); } CHECK_EQ( calls[ a ], before + fresh ); again += before > 0;
	}
	for ( long a : known ) { int before = calls[ a ]; CHECK_EQ( f( a ), "v" + std::to_string( a ) ); CHECK_EQ( calls[ a ], before ); } g.note( "calls", n ).note( "faults", faults ); g.nontrivial( n > 1 && faults && again );
}

LAW( hashing, 200000 )
{
	string s = g.str( 60, "ab \n~", false ); for ( char& c : s ) c = char( c & 127 ? c & 127 : 1 ); uint64_t h = 0xCBF29CE484222325ull; for ( unsigned char c : s ) { h ^= c; h *= 0x100000001B3ull; } g.note( "s", s ); g.nontrivial( s.size() > 1 );
	CHECK_EQ( flut::hash( s ), h ); CHECK_EQ( flut::hash( s.c_str() ), h ); CHECK_EQ( flut::hash_constexpr( s.c_str() ), h );
	string any = g.str( 30, "ab", true ); CHECK_EQ( flut::hash( any ), flut::hash_constexpr( any.c_str() ) ); CHECK_EQ( flut::hash( any ), flut::hash( any.c_str() ) );
	constexpr auto lit = "flut literal"_hash; CHECK_EQ( (uint64_t)lit, (uint64_t)flut::hash( "flut literal" ) );
}

LAW( cloning, 60000 )
{
	vector< std::unique_ptr< string > > v; Seq s( g, 12 ); while ( s.more() ) v.emplace_back( new string( g.str( 40, "abc", true ) ) ); g.note( "size", v.size() ); g.nontrivial( v.size() > 1 );
	auto c = flut::clone( v ); CHECK_EQ( c.size(), v.size() ); for ( size_t i = 0; i < v.size(); ++i ) { CHECK( c[ i ].get() != v[ i ].get() ); CHECK_EQ( *c[ i ], *v[ i ] ); string keep = *v[ i ]; *c[ i ] += "x"; CHECK_EQ( *v[ i ], keep ); }
	if ( !v.empty() ) { auto one = flut::clone( v[ 0 ] ); CHECK( one.get() != v[ 0 ].get() && *one == *v[ 0 ] ); }
}
