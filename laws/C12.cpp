#include "common.hpp"
#include "proptree.hpp"
PROPERTY( "C12", "trees with one root, XML names as labels and values of any non-zero bytes that are not only white space, on nodes without children, nested up to 150 deep; saved as XML and loaded; hand-written XML with attributes, entities, comments and a declaration; truncated documents. Non-trivial: nested groups or values with XML special characters." )
using std::string; using flut::prop_node;
static string name( Gen& g ) { string s( 1, g.byte( "abzABZ_", false ) ); return s + g.str( 12, "abc019_-." ); }
static string text( Gen& g ) {
	string s = g.chance( 1, 2 ) ? g.str( 12, "abc019_. " ) : g.str( g.chance( 1, 10 ) ? 400 : 30, "ab <>&\"';=\n\t/!?-]", true ); s = swell( g, s, 2000, 20000 );
	if ( s.find_first_not_of( " \n\r\t" ) == string::npos ) s = ""; // white space only: not kept by XML
	return s;
}
static bool special( const Tree& t ) { if ( t.value.find_first_of( "<>&\"'" ) != string::npos ) return true; for ( auto& k : t.kids ) if ( special( k.second ) ) return true; return false; }
static Tree doc( Gen& g ) { size_t budget = g.chance( 1, 4 ) ? 40 : 6; Tree r; Tree t = gen_tree( g, budget, 5, 8, name, text, false ); if ( t.kids.empty() ) t.value = text( g ); else deepen( g, t, 40, 150 ); r.kids.push_back( { name( g ), t } ); return r; }

LAW( save_load, 100000 )
{
	Tree t = doc( g ); g.note( "tree", str_of( t ) ); g.nontrivial( t.depth() > 1 || special( t ) ); g.label( "special", special( t ) );
	string f = pbt::scratch_dir() + "/t.xml";
	prop_node pn = to_prop( t ); flut::save_xml( pn, flut::path( f ) ); CHECK_TREE( from_prop( pn ), t );
	flut::error_code ec;
	CHECK_TREE( from_prop( flut::load_xml( flut::path( f ), &ec ) ), t ); CHECK( ec.ok() );
	CHECK_TREE( from_prop( flut::load_xml( flut::path( f ) ) ), t );
	CHECK_TREE( from_prop( flut::load_file( flut::path( f ) ) ), t );
}

static string esc( Gen& g, const string& s ) {
	string o; char b[ 16 ];
	for ( unsigned char c : s ) switch ( c ) {
	case '<': o += "&lt;"; break; case '>': o += g.coin() ? "&gt;" : ">"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break;
	default: if ( c > 32 && c < 127 && g.chance( 1, 12 ) ) { snprintf( b, sizeof b, g.coin() ? "&#%d;" : "&#x%x;", c ); o += b; } else o += (char)c;
	}
	return o;
}
static string ws( Gen& g ) { string s; Seq q( g, 3 ); while ( q.more() ) s += g.pick( { " ", "\n", "\t", "<!-- a < comment -->" } ); return s; }
static void write( Gen& g, const string& label, const Tree& t, string& o ) {
	o += "<" + label; size_t attr = 0;
	while ( attr < t.kids.size() && t.kids[ attr ].second.kids.empty() && g.chance( 1, 2 ) ) { // leading leaves as attributes
		bool dup = false; for ( size_t i = 0; i < attr; ++i ) dup |= t.kids[ i ].first == t.kids[ attr ].first; if ( dup ) break;
		char q = g.coin() ? '"' : '\''; o += " " + t.kids[ attr ].first + "="; o += q; o += esc( g, t.kids[ attr ].second.value ); o += q; ++attr;
	}
	if ( attr == t.kids.size() && t.value.empty() && g.coin() ) { o += "/>"; return; }
	o += ">";
	if ( t.kids.empty() ) o += esc( g, t.value );
	else for ( size_t i = attr; i < t.kids.size(); ++i ) { o += ws( g ); write( g, t.kids[ i ].first, t.kids[ i ].second, o ); }
	if ( !t.kids.empty() ) o += ws( g );
	o += "</" + label + ">";
}
LAW( written_by_hand, 60000 )
{
	Tree t = doc( g ); string x; if ( g.coin() ) x += "<?xml version=\"1.0\"?>\n"; x += ws( g );
	write( g, t.kids[ 0 ].first, t.kids[ 0 ].second, x ); string whole = x; x += ws( g );
	g.note( "xml", x ); g.nontrivial( t.count() > 3 ); g.label( "attributes", x.find( "=" ) != string::npos );
	string f = pbt::scratch_dir() + "/h.xml"; pbt::write_file( f, x );
	CHECK_TREE( from_prop( flut::load_xml( flut::path( f ) ) ), t );
}

LAW( truncated, 40000 )
{
	Tree t = doc( g ); string x; write( g, t.kids[ 0 ].first, t.kids[ 0 ].second, x ); x.resize( 1 + g.below( x.size() - 1 ) );
	g.note( "xml", x ); g.nontrivial( t.count() > 3 );
	string f = pbt::scratch_dir() + "/c.xml"; pbt::write_file( f, x );
	flut::error_code ec; prop_node pn = flut::load_xml( flut::path( f ), &ec );
	CHECK( ec.error() ); CHECK( pn.empty() ); CHECK_THROWS( flut::load_xml( flut::path( f ) ) );
}

// files of different threads do not meet
LAW( in_threads, 150 )
{
	const int n = 2 + (int)g.below( 3 ); std::vector< Tree > v; for ( int t = 0; t < n; ++t ) { v.push_back( doc( g ) ); g.note( "tree", str_of( v.back() ) ); } g.nontrivial( true ); string base = pbt::scratch_dir() + "/t";
	CHECK_EQ( wrong_in_threads( n, 20, [&]( int t, int ) { flut::path f( base + std::to_string( t ) + ".xml" ); flut::save_xml( to_prop( v[ t ] ), f ); return from_prop( flut::load_xml( f ) ) == v[ t ]; } ), 0 );
}
