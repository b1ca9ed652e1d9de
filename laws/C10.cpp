#include "common.hpp"
#include "proptree.hpp"
PROPERTY( "C10", "trees of up to 60 nodes, depth up to 6 (in one of 40 cases with a chain of up to 200 nested groups), whose labels start with a letter and go on with any non-zero bytes and whose values are any non-zero bytes (prop syntax, quotes, escapes, comments, white space at the ends), saved readable or compact and loaded again. Non-trivial: at least one value or label that needs quoting, or a nested group." )
using std::string; using flut::prop_node;
static const char* nasty = "ab ={}%;'\"\\\n\t\r\f\v#.,0";
static string label( Gen& g ) {
	string s( 1, g.byte( "abzABZ", false ) );
	return s + swell( g, g.chance( 1, 3 ) ? g.str( 20, nasty, true ) : g.str( 12, "abc019_" ), 1000, 5000 );
}
static string value( Gen& g ) {
	switch ( g.below( 5 ) ) {
	case 0: return std::to_string( g.i( -1000, 1000 ) );
	case 1: return g.str( 20, "abc019_. " );
	case 2: return string();
	default: return swell( g, g.str( g.chance( 1, 10 ) ? 600 : 40, nasty, true ), 2000, 20000 );
	}
}
static bool odd( const string& s ) { return s.find_first_of( " ={}%;'\"\\\n\t\r\f\v" ) != string::npos; }
static bool any_odd( const Tree& t ) { if ( odd( t.value ) ) return true; for ( auto& k : t.kids ) if ( odd( k.first ) || any_odd( k.second ) ) return true; return false; }

LAW( save_load, 60000 )
{
	size_t budget = g.chance( 1, 4 ) ? 60 : 8; Tree t = gen_tree( g, budget, 6, 12, label, value, true ); deepen( g, t, 40, 200 );
	bool readable = g.coin();
	g.note( "tree", str_of( t ) ).note( "readable", readable ); g.nontrivial( any_odd( t ) || t.depth() > 1 ); g.label( readable ? "readable" : "compact" );
	string f = pbt::scratch_dir() + "/t.prop";
	prop_node pn = to_prop( t );
	if ( readable && g.coin() ) CHECK( flut::save_prop( pn, flut::path( f ) ) ); else CHECK( flut::save_prop( pn, flut::path( f ), readable ) );
	CHECK_TREE( from_prop( pn ), t ); // saving leaves the tree as it was
	flut::error_code ec;
	prop_node back = g.coin() ? flut::load_prop( flut::path( f ), &ec ) : flut::load_prop( flut::path( f ) );
	CHECK( ec.ok() );
	CHECK_TREE( from_prop( back ), t );
	string text = pbt::read_file( f );
	CHECK_TREE( from_prop( flut::parse_prop( text.c_str() ) ), t );
	CHECK_TREE( from_prop( prop_node( text.c_str() ) ), t );
	CHECK_TREE( from_prop( flut::load_file( flut::path( f ) ) ), t );
	if ( !readable ) CHECK( text.find( '\n' ) == string::npos );
	// saving again writes the same text
	string f2 = pbt::scratch_dir() + "/u.prop"; pbt::write_file( f2, string( g.size( 200 ), 'x' ) );
	CHECK( flut::save_prop( back, flut::path( f2 ), readable ) ); CHECK_EQ( pbt::read_file( f2 ), text );
}

LAW( unwritable_target, 5000 )
{
	string f = pbt::scratch_dir() + "/none" + std::to_string( g.i( 0, 9 ) ) + "/t.prop"; prop_node pn; pn.set( "a", g.i( 0, 9 ) ); g.note( "file", f ); g.nontrivial();
	CHECK_EQ( flut::save_prop( pn, flut::path( f ) ), false ); CHECK( !pbt::file_there( f ) );
	// a device without room
	pn.set( "b", g.str( 2000, "ab" ) ); if ( pbt::file_there( "/dev/full" ) ) CHECK_EQ( flut::save_prop( pn, flut::path( "/dev/full" ), g.coin() ), false );
}

// files of different threads do not meet
LAW( in_threads, 150 )
{
	const int n = 2 + (int)g.below( 3 ); std::vector< Tree > v; for ( int t = 0; t < n; ++t ) { size_t budget = 10; v.push_back( gen_tree( g, budget, 4, 5, label, value, true ) ); v.back().kids.push_back( { "thread", Tree() } ); v.back().kids.back().second.value = std::to_string( t ); g.note( "tree", str_of( v.back() ) ); } g.nontrivial( true ); string base = pbt::scratch_dir() + "/t";
	CHECK_EQ( wrong_in_threads( n, 20, [&]( int t, int k ) { flut::path f( base + std::to_string( t ) + ".prop" ); return flut::save_prop( to_prop( v[ t ] ), f, k % 2 == 0 ) && from_prop( flut::load_prop( f ) ) == v[ t ]; } ), 0 );
}
