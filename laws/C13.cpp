#include "common.hpp"
#include "proptree.hpp"
PROPERTY( "C13", "ini structures of up to 12 top-level items and 8 groups with distinct keys and trimmed single-line values of any bytes, saved and loaded; hand-written ini text with comments, blank lines, spaces and repeated keys; text without '='. Non-trivial: at least one group and one item." )
using std::string; using flut::prop_node;
static const char* ws = " \t\r\n\f\v";
struct Names { std::set< string > used; string fresh( string s ) { while ( !used.insert( s ).second ) s += "_" + std::to_string( used.size() ); return s; } };
static string key( Gen& g, Names& n ) { string s = flut::trim_str( g.chance( 1, 3 ) ? g.str( 2, "abcXYZ019;_" ) : g.str( 12, "abc019_.-; []#", g.chance( 1, 4 ), "=\r\n" ) ); if ( s.empty() || s[ 0 ] == '#' || s[ 0 ] == '[' ) s = "k" + s; return n.fresh( s ); }
static string group_name( Gen& g, Names& n ) { string s = flut::trim_str( g.chance( 1, 3 ) ? g.str( 1, "abcG01" ) : g.str( 14, "abcG 019_.#=;[]", g.chance( 1, 4 ), "\r\n" ) ); if ( s.empty() ) s = "g"; return n.fresh( s ); }
static string value( Gen& g, bool may_be_empty ) { string s = flut::trim_str( swell( g, g.str( 30, "ab 019_=[]#;\"\\{}", true, "\r\n\t\f\v" ), 3000, 20000 ) ); if ( s.empty() && !may_be_empty ) s = "0"; return s; }
static Tree gen( Gen& g ) {
	Tree t; Names top; { Seq s( g, 12 ); while ( s.more() ) { Tree v; v.value = value( g, false ); t.kids.push_back( { key( g, top ), v } ); } }
	Seq s( g, 8 ); while ( s.more() ) { Tree grp; Names in; Seq q( g, 8, 1 ); while ( q.more() ) { Tree v; v.value = value( g, true ); grp.kids.push_back( { key( g, in ), v } ); } t.kids.push_back( { group_name( g, top ), grp } ); }
	return t;
}
static bool mixed( const Tree& t ) { return !t.kids.empty() && !t.kids.front().second.value.empty() && !t.kids.back().second.kids.empty(); }

LAW( save_load, 100000 )
{
	Tree t = gen( g ), shuffled = t; // items may follow groups in the tree: they are written before them
	if ( g.coin() ) for ( size_t i = shuffled.kids.size(); i > 1; --i ) { size_t j = g.below( i ); if ( j != i - 1 ) std::swap( shuffled.kids[ i - 1 ], shuffled.kids[ j ] ); }
	Tree want; for ( auto& k : shuffled.kids ) if ( k.second.kids.empty() ) want.kids.push_back( k ); for ( auto& k : shuffled.kids ) if ( !k.second.kids.empty() ) want.kids.push_back( k );
	g.note( "tree", str_of( shuffled ) ); g.nontrivial( mixed( t ) );
	string f = pbt::scratch_dir() + "/t.ini"; flut::save_ini( to_prop( shuffled ), flut::path( f ) );
	CHECK_TREE( from_prop( flut::load_ini( flut::path( f ) ) ), want );
}

LAW( written_by_hand, 80000 )
{
	Tree t = gen( g ); string x; auto sp = [&]() { return string( g.pick( { "", "", " ", "\t", "  " } ) ); };
	auto junk = [&]() { Seq q( g, 3 ); while ( q.more() ) { x += sp(); if ( g.coin() ) x += "#" + g.str( 15, "ab=[] #", false ); x += g.pick( { "\n", "\r\n" } ); } };
	auto item = [&]( const string& k, const string& v ) { junk(); x += sp() + k + sp() + "=" + sp() + v + sp() + g.pick( { "\n", "\r\n" } ); };
	for ( auto& k : t.kids ) if ( k.second.kids.empty() ) { if ( g.chance( 1, 10 ) ) item( k.first, "overwritten" ); item( k.first, k.second.value ); }
	for ( auto& k : t.kids ) if ( !k.second.kids.empty() ) { junk(); x += sp() + "[" + k.first + "]" + sp() + "\n"; for ( auto& i : k.second.kids ) { if ( g.chance( 1, 10 ) ) item( i.first, "old" ); item( i.first, i.second.value ); } }
	junk(); g.note( "ini", x ); g.nontrivial( mixed( t ) );
	string f = pbt::scratch_dir() + "/h.ini"; pbt::write_file( f, x );
	CHECK_TREE( from_prop( flut::load_ini( flut::path( f ) ) ), t ); // a repeated key keeps its place and takes the last value
}

LAW( missing_assignment, 30000 )
{
	Tree t = gen( g ); string f = pbt::scratch_dir() + "/b.ini"; flut::save_ini( to_prop( t ), flut::path( f ) ); string x = pbt::read_file( f );
	string bad = flut::trim_str( g.str( 10, "abc 019_", false ) ); if ( bad.empty() ) bad = "x"; if ( g.chance( 1, 4 ) ) bad = g.pick( { "[]", "[", "]", "[open", "close]", "[a]b", "a[b]" } );
	if ( g.coin() ) x += bad + "\n"; else x = bad + "\n" + x;
	g.note( "ini", x ); g.nontrivial( t.kids.size() > 1 ); pbt::write_file( f, x );
	CHECK_THROWS( flut::load_ini( flut::path( f ) ) );
	CHECK_THROWS( flut::load_ini( flut::path( pbt::scratch_dir() + "/absent.ini" ) ) );
}
