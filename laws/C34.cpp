#include "common.hpp"
#include "proptree.hpp"
#include "flut/filesystem.hpp"
#include <sys/stat.h>
PROPERTY( "C34", "missing files, folders, arbitrary bytes, and prop, XML and INI documents with up to five random edits, read through every loader with and without an error_code. Non-trivial: the document was damaged or is missing." )
static pbt::NoLongStrings names_are_limited;
using std::string; using flut::prop_node; using flut::path; using flut::error_code;

template< typename F > static bool thrown( F f, string& what ) { try { f(); } catch ( const std::exception& e ) { what = e.what(); return true; } return false; }
template< typename F > static void both( F load, const string& name ) { // load( error_code* )
	error_code ec; prop_node a, b; string w, w2; if ( thrown( [&]() { a = load( &ec ); }, w ) ) FAIL( name + " with an error_code threw: " + w ); bool t = thrown( [&]() { b = load( nullptr ); }, w2 ); CHECK_EQ( t, ec.error() ); CHECK_EQ( ec.ok(), !t ); CHECK_EQ( ec.code() != 0, t );
	if ( t ) { CHECK( a.empty() && !a.has_value() ); CHECK( !ec.message().empty() ); CHECK_EQ( ec.message(), w2 ); } else { CHECK_TREE( from_prop( a ), from_prop( b ) ); CHECK( ec.message().empty() ); }
}
static void xml( Gen& g, const Tree& t, string& o ) { for ( auto& k : t.kids ) { o += "<" + k.first + ">"; for ( char c : k.second.value ) if ( c == '<' ) o += "&lt;"; else if ( c == '&' ) o += "&amp;"; else o += c; xml( g, k.second, o ); o += "</" + k.first + ">" + g.pick( { "", "\n" } ); } }
static string document( Gen& g, size_t kind ) {
	string o; if ( kind == 0 ) return g.str( 120, "ab<>/=\"'!-?&;#[]{}% \n", true );
	size_t budget = 8; Tree t = gen_tree( g, budget, 4, 4, []( Gen& g ) { return g.ident( 5 ); }, []( Gen& g ) { return g.str( 8, "abc 12&;<" ); }, true );
	if ( kind == 1 ) { o = g.pick( { "", "<?xml version=\"1.0\"?>\n", "<!-- c -->" } ); o += "<root a=\"1\">"; xml( g, t, o ); o += "</root>"; }
	else if ( kind == 2 ) for ( auto& k : t.kids ) { o += k.first + " = \"" + k.second.value + "\" { x = 1 }\n"; }
	else for ( auto& k : t.kids ) o += g.chance( 1, 4 ) ? "[" + k.first + "]\n" : k.first + "=" + k.second.value + "\n";
	return o;
}
LAW( loaders_report_alike, 150000 )
{
	size_t kind = g.below( 4 ); bool missing = g.chance( 1, 10 ); string text = document( g, kind ); size_t edits = 0; if ( kind ) { Seq m( g, 5 ); while ( m.more() ) { ++edits; size_t at = g.below( text.size() + 1 ); switch ( g.below( 3 ) ) { case 0: text.insert( at, 1, g.byte( "<>/=\"'{}%[]\\&;! \na1", true ) ); break; case 1: if ( at < text.size() ) text.erase( at, 1 ); break; default: text.resize( at ); } } }
	string dir = pbt::scratch_dir() + "/"; string none = string( g.pick( { "", "no/", "in.prop/", "a.b/c/" } ) ) + ( g.coin() ? "absent" : g.ident( 8 ) + "_" ) + g.pick( { "", ".prop", ".xml", ".ini", ".", ".x.y" } ); path fx( dir + ( missing ? g.coin() ? g.coin() ? "no.xml" : "dir.xml" : none : "in.xml" ) ), fp( dir + ( missing ? g.chance( 1, 4 ) ? string( "dir.prop" ) : none : "in.prop" ) ); mkdir( ( dir + "dir.xml" ).c_str(), 0777 ); mkdir( ( dir + "dir.prop" ).c_str(), 0777 ); pbt::write_file( dir + "in.xml", text ); pbt::write_file( dir + "in.prop", text ); g.note( "text", text ).note( "missing", missing ); g.nontrivial( missing || kind == 0 || edits > 0 );
	both( [&]( error_code* ec ) { return flut::load_prop( fp, ec ); }, "load_prop" ); both( [&]( error_code* ec ) { return flut::load_xml( fx, ec ); }, "load_xml" ); both( [&]( error_code* ec ) { return flut::parse_prop( text.c_str(), ec ); }, "parse_prop" );
	// load_file picks the loader by extension
	prop_node a, b; string w, w2; bool t1 = thrown( [&]() { a = flut::load_file( fx ); }, w ), t2 = thrown( [&]() { b = fx.extension() == "xml" ? flut::load_xml( fx ) : flut::load_prop( fx ); }, w2 ); CHECK_EQ( t1, t2 ); CHECK_EQ( w, w2 ); if ( !t1 ) CHECK_TREE( from_prop( a ), from_prop( b ) ); w = w2 = ""; t1 = thrown( [&]() { a = flut::load_file( fp ); }, w ); t2 = thrown( [&]() { b = fp.extension() == "xml" ? flut::load_xml( fp ) : flut::load_prop( fp ); }, w2 ); CHECK_EQ( t1, t2 ); CHECK_EQ( w, w2 ); if ( !t1 ) CHECK_TREE( from_prop( a ), from_prop( b ) );
	// INI: ends for any text
	prop_node i; bool t3 = thrown( [&]() { i = flut::load_ini( fp ); }, w ); if ( missing ) { CHECK( t3 ); CHECK( t1 ); } g.label( "rejected", t1 );
	error_code es; string s = flut::load_string( fp, &es ); CHECK_EQ( es.error(), missing ); if ( missing ) { CHECK( s.empty() ); CHECK( es.message().find( fp.str() ) != string::npos ); error_code ef; auto cs = flut::load_char_stream( fp, flut::default_delimiters(), &ef ); CHECK( ef.error() ); CHECK( !cs.good() ); CHECK_THROWS( flut::load_char_stream( fp ) ); } else CHECK( s == text );
}

LAW( error_codes, 100000 )
{
	int c = g.i( -5, 5 ); string m = g.str( 30, "ab ", true ); g.note( "code", c ).note( "message", m ); g.nontrivial( c != 0 );
	error_code e; CHECK( e.ok() && !e.error() ); CHECK_EQ( e.code(), 0 ); CHECK( e.message().empty() ); error_code f( c, m ); CHECK_EQ( f.code(), c ); CHECK_EQ( f.message(), m ); CHECK_EQ( f.ok(), c == 0 ); CHECK_EQ( f.error(), c != 0 ); CHECK( &e.set( c, m ) == &e ); CHECK_EQ( e.code(), c ); CHECK_EQ( e.message(), m ); e.set( 0 ); CHECK( e.ok() && e.message().empty() );
	CHECK( flut::try_set_error( &e, m ) ); CHECK( e.error() ); CHECK_EQ( e.message(), m ); error_code o( c ? c : 9, "before" ); CHECK( flut::try_set_error( &o, m ) ); CHECK( o.error() ); CHECK_EQ( o.message(), m ); CHECK( !flut::try_set_error( nullptr, m ) ); CHECK( flut::no_error().ok() ); CHECK( flut::error( m ).error() ); CHECK_EQ( flut::error( m ).message(), m );
	// failed checks throw, passed ones do not, and the message arrives
	auto text = [&]( int k ) -> string { try { switch ( k ) { case 0: flut_error( m ); case 1: flut_error_if( c > 0, m ); break; case 2: flut_assert_msg( c <= 0, m ); break; case 3: flut_validate_msg( c <= 0, m ); break; case 4: flut_assert( c <= 0 ); break; default: flut_validate( c <= 0 ); } } catch ( const std::exception& x ) { return string( "!" ) + x.what(); } return ""; };
	CHECK_EQ( text( 0 ), "!" + m ); CHECK_EQ( text( 1 ), c > 0 ? "!" + m : string() ); for ( int k = 2; k < 6; ++k ) { string w = text( k ); CHECK_EQ( !w.empty(), c > 0 ); if ( c > 0 ) CHECK( w.find( k < 4 ? m : string( "c <= 0" ) ) != string::npos ); }
}
