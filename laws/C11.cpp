#include "common.hpp"
#include "proptree.hpp"
PROPERTY( "C11", "prop texts rendered from a tree with random white space, separators, comments, quoting and brace placement (comments and labels of up to 5000 characters, groups nested up to 200 deep); the same with an invalid entry; and arbitrary or mutated text. Non-trivial: at least three nodes, or text with a brace, quote or comment." )
using std::string; using flut::prop_node;
static string gap( Gen& g, bool newline_needed = false ) { // white space and comments between tokens
	string s; Seq q( g, 4 );
	while ( q.more() ) switch ( g.below( 8 ) ) {
	case 0: s += " "; break; case 1: s += "\t"; break; case 2: s += "\n"; break; case 3: s += "\r\n"; break; case 4: s += "   "; break; case 5: s += ";"; break;
	default: s += "%" + swell( g, g.str( 20, "ab ={}%\"';\\", true, "\r\n" ), 2000, 5000 ) + g.pick( { "\n", "\r\n", "\n\t" } );
	}
	if ( newline_needed ) s = string( g.pick( { "\n", ";", "\r\n", "\t", " \n ", " ;  " } ) ) + s;
	return s;
}
static string plain( Gen& g ) { // text that needs no quotes: may hold single spaces inside
	string s = g.str( 16, "abcXYZ019_.,+-/:()[]<>!#@ " ); string t = flut::trim_str( s ); return t.empty() ? "v" : t;
}
static string quote( Gen& g, const string& s ) {
	if ( s.find( '\'' ) == string::npos && g.chance( 1, 3 ) ) { string r = "'"; for ( char c : s ) r += flut::encode_char( c ); return r + "'"; }
	string r = "\""; for ( char c : s ) r += flut::encode_char( c ); return r + "\"";
}
static void render( Gen& g, const Tree& t, string& o ) {
	for ( auto& k : t.kids ) {
		o += gap( g );
		bool ql = k.first.find_first_of( " ={}%;'\"\\\n\t\r\v\f" ) != string::npos || g.chance( 1, 8 );
		o += ql ? quote( g, k.first ) : k.first; o += gap( g );
		bool has_val = !k.second.value.empty() || k.second.kids.empty();
		bool bare = true;
		if ( has_val ) {
			o += "="; o += gap( g );
			const string& v = k.second.value;
			bool q = v.empty() || v.find_first_of( "={}%;'\"\\\n\t\r\v\f" ) != string::npos || flut::trim_str( v ) != v || g.chance( 1, 4 );
			for ( unsigned char c : v ) q = q || c < 33 && c != ' ';
			o += q ? quote( g, v ) : v; bare = !q;
		}
		if ( !k.second.kids.empty() ) { o += gap( g, has_val && bare && g.coin() ); o += "{"; render( g, k.second, o ); o += gap( g ); o += "}"; o += gap( g ); }
		else o += gap( g, true );
	}
}
static string label( Gen& g ) { string s( 1, g.byte( "abzABZ", false ) ); return s + ( g.chance( 1, 8 ) ? g.str( 8, "a ={}%;'\"\\\n", false ) : swell( g, g.str( 8, "abc019_.-" ), 2000, 5000 ) ); }
static string value( Gen& g ) { return g.chance( 1, 3 ) ? swell( g, g.str( 30, "ab ={}%;'\"\\\n\t", true ), 2000, 20000 ) : plain( g ); }

LAW( layout_does_not_matter, 120000 )
{
	size_t budget = g.chance( 1, 4 ) ? 40 : 6; Tree t = gen_tree( g, budget, 6, 8, label, value, true ); widen( g, t, 60, 200 ); deepen( g, t, 40, 200 );
	string text; render( g, t, text ); text += gap( g );
	g.note( "text", text ); g.nontrivial( t.count() > 3 ); g.label( "comment", text.find( '%' ) != string::npos );
	std::unique_ptr< char[] > buf( new char[ text.size() + 1 ] ); memcpy( buf.get(), text.c_str(), text.size() + 1 );
	flut::error_code ec; prop_node pn = flut::parse_prop( buf.get(), &ec );
	CHECK( ec.ok() );
	CHECK_TREE( from_prop( pn ), t );
}

LAW( invalid_entry_is_reported, 60000 )
{
	size_t budget = 10; Tree t = gen_tree( g, budget, 3, 5, label, value, true ); string inner; render( g, t, inner ); if ( g.chance( 1, 30 ) ) for ( size_t i = g.size( 200 ); i > 0; --i ) inner += "\nw" + std::to_string( i ) + " = 1";
	string bad; // does not start with a letter
	switch ( g.below( 4 ) ) {
	case 0: bad = g.pick( { "1x", "_a", "= b", "-", "9", "\"\"", "\"1\"", "@", "==", "''", "=" } ); break;
	case 1: bad = string( 1, g.byte( "0123456789_-+.,/:()[]<>!#@$&*?~^|`", false ) ) + g.str( 10, "abc019_.-" ); break;
	case 2: bad = string( 1, g.byte( "0123456789", false ) ); bad += g.str( 8, "0123456789." ); break;
	default: bad = string( 1, g.byte( "0129_-+. ={}%;\\\n\t", true, "\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" ) ) + g.str( 8, "ab ={}%;\\1", true ); bad = quote( g, bad );
	}
	if ( g.coin() ) bad += g.pick( { " = 1", "=x", " { a = 1 }", " = \"a b\"" } );
	string text;
	if ( g.chance( 1, 3 ) ) { text = inner + "\n" + ( g.chance( 1, 4 ) ? "}" : bad ) + "\n"; if ( g.coin() ) text += "z = 1\n"; g.label( "top level" ); }
	else { text = "root { " + inner + "\n" + bad + " }\n"; if ( g.coin() ) text = "a=1\n" + text; }
	g.note( "text", text ); g.nontrivial( t.count() > 1 );
	flut::error_code ec; prop_node pn = flut::parse_prop( text.c_str(), &ec );
	CHECK( ec.error() ); CHECK( !ec.message().empty() ); CHECK( pn.empty() );
	CHECK_THROWS( flut::parse_prop( text.c_str() ) );
	string f = pbt::scratch_dir() + "/bad.prop"; pbt::write_file( f, text );
	flut::error_code ec2; CHECK( flut::load_prop( flut::path( f ), &ec2 ).empty() ); CHECK( ec2.error() );
	CHECK_THROWS( flut::load_prop( flut::path( f ) ) );
}

LAW( any_text_is_safe, 150000 )
{
	string text;
	if ( g.coin() ) text = g.str( 200, "ab={}%;'\"\\ \n\t1", true );
	else {
		size_t budget = 10; Tree t = gen_tree( g, budget, 4, 5, label, value, true ); render( g, t, text );
		Seq m( g, 5, 1 );
		while ( m.more() ) { size_t at = g.below( text.size() + 1 ); switch ( g.below( 3 ) ) { case 0: text.insert( at, 1, g.byte( "={}%;'\"\\ \na1", true ) ); break; case 1: if ( at < text.size() ) text.erase( at, 1 ); break; default: text.resize( at ); } }
	}
	g.note( "text", text ); g.nontrivial( text.find_first_of( "{}\"'%" ) != string::npos );
	std::unique_ptr< char[] > buf( new char[ text.size() + 1 ] ); memcpy( buf.get(), text.c_str(), text.size() + 1 );
	flut::error_code ec; prop_node a = flut::parse_prop( buf.get(), &ec );
	bool thrown = false; prop_node b;
	try { b = flut::parse_prop( buf.get() ); } catch ( const std::exception& ) { thrown = true; }
	CHECK_EQ( thrown, ec.error() );
	if ( thrown ) CHECK( a.empty() ); else CHECK_TREE( from_prop( a ), from_prop( b ) );
	g.label( thrown ? "error" : "accepted" );
}
