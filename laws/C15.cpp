#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/system/path.hpp"
PROPERTY( "C15", "paths assembled from up to 6 folder parts (any bytes, dots and spaces included) with '/' and '\\' separators and a file name with zero or more dots; arbitrary byte strings as paths. Non-trivial: at least one folder and a dot somewhere." )
using std::string; using flut::path;
static string part( Gen& g, size_t max ) { return g.str( max, "ab01 ._-.", true, "/\\" ); }
struct Parts { string dir, sep, file; string str() const { return dir + sep + file; } };
static Parts gen( Gen& g ) {
	Parts p; Seq s( g, 6 ); bool any = false; auto sep = [&]() { return string( g.pick( { "/", "/", "\\" } ) ); };
	if ( g.chance( 1, 4 ) ) p.dir = sep();
	while ( s.more() ) { string d = part( g, 8 ); if ( d.empty() ) d = "d"; if ( any ) p.dir += sep(); p.dir += d; any = true; }
	if ( any ) { p.sep = sep(); if ( g.chance( 1, 12 ) ) p.dir += sep(); } else if ( !p.dir.empty() ) { p.sep = p.dir; p.dir.clear(); } // a lone separator in front, or two in a row
	p.file = part( g, 16 );
	return p;
}
static void split( const string& f, string& stem, string& ext, bool& dot ) { size_t n = f.rfind( '.' ); dot = n != string::npos; stem = f.substr( 0, n ); ext = dot ? f.substr( n + 1 ) : string(); }

LAW( parts, 800000 )
{
	Parts q = gen( g ); string s = q.str(), stem, ext; bool dot; split( q.file, stem, ext, dot ); path p( s );
	g.note( "path", s ); g.nontrivial( !q.dir.empty() && s.find( '.' ) != string::npos ); g.label( "dotted-folder", q.dir.find( '.' ) != string::npos && !dot );
	CHECK_EQ( p.str(), s ); CHECK_EQ( p.string(), s ); CHECK_EQ( string( p.c_str() ), s ); CHECK_EQ( p.empty(), s.empty() );
	CHECK_EQ( p.parent_path().str(), q.dir ); CHECK_EQ( p.filename().str(), q.file );
	CHECK_EQ( p.has_parent_path(), !q.sep.empty() ); CHECK_EQ( p.has_filename(), !q.file.empty() );
	CHECK_EQ( p.stem().str(), stem ); CHECK_EQ( p.extension().str(), ext );
	// the file name is the stem, and a dot and the extension if there is a dot
	CHECK_EQ( p.filename().str(), dot ? p.stem().str() + "." + p.extension().str() : p.stem().str() );
	CHECK_EQ( flut::get_filename_ext( s ), ext ); CHECK_EQ( flut::get_filename_folder( s ), q.dir + q.sep ); CHECK_EQ( flut::get_filename_without_folder( s ), q.file );
	if ( !dot || !ext.empty() ) CHECK_EQ( flut::get_filename_without_ext( s ), q.dir + q.sep + stem );
	string pref = s; for ( char& c : pref ) if ( c == '\\' ) c = '/';
	path r( s ); CHECK( &r.make_preferred() == &r ); CHECK_EQ( r.str(), pref );
	r = path( s ); r.remove_filename(); CHECK_EQ( r.str(), q.dir );
	// copies, comparison, output
	path c( p ), d; d = p; CHECK( c == p ); CHECK( d == p ); CHECK( !( c != p ) ); path e( std::move( c ) ); CHECK_EQ( e.str(), s ); d = string( "x" ); CHECK_EQ( d.str(), string( "x" ) ); d = std::move( e ); CHECK_EQ( d.str(), s );
	std::ostringstream o; o << p; CHECK_EQ( o.str(), s );
}

LAW( replace, 800000 )
{
	Parts q = gen( g ); string s = q.str(), stem, ext; bool dot; split( q.file, stem, ext, dot );
	string x = g.str( 6, "abc01_", true, "/\\." ); g.note( "path", s ).note( "new", x ); g.nontrivial( !q.dir.empty() && s.find( '.' ) != string::npos );
	path p( s ); p.replace_extension( path( x ) );
	CHECK_EQ( p.str(), q.dir + q.sep + stem + ( x.empty() ? string() : "." + x ) );
	if ( !x.empty() ) { CHECK_EQ( p.extension().str(), x ); path again( p ); again.replace_extension( path( x ) ); CHECK( again == p ); }
	CHECK_EQ( p.parent_path().str(), q.dir );
	path r( s ); r.replace_extension(); CHECK_EQ( r.str(), q.dir + q.sep + stem );
	string f = part( g, 10 ); if ( f.empty() ) f = "f"; g.note( "file", f );
	path t( s ); t.replace_filename( path( f ) ); CHECK_EQ( t.filename().str(), f );
	CHECK_EQ( t.str(), q.dir + q.sep + f );
}

LAW( join, 800000 )
{
	Parts q = gen( g ); string s = q.str(), x = part( g, 10 ); bool rooted = g.chance( 1, 8 ); if ( rooted ) x = g.pick( { "/", "\\" } ) + x; g.note( "path", s ).note( "append", x ); g.nontrivial( !q.dir.empty() && !x.empty() );
	string want = q.file.empty() ? s + x : s + "/" + x; // no second separator after one, none in front of a first part
	CHECK_EQ( ( path( s ) / x ).str(), want ); CHECK_EQ( ( path( s ) / path( x ) ).str(), want ); CHECK_EQ( ( path( s ) / x.c_str() ).str(), want );
	path p( s ); p /= x; CHECK_EQ( p.str(), want ); path r( s ); r /= path( x ); CHECK_EQ( r.str(), want );
	if ( !rooted ) CHECK_EQ( p.filename().str(), x ); if ( !rooted && !q.file.empty() ) CHECK_EQ( p.parent_path().str(), s );
	CHECK_EQ( ( path( s ) + x ).str(), s + x ); CHECK_EQ( ( x + path( s ) ).str(), x + s );
	CHECK_EQ( path( s ) == path( x ), s == x ); CHECK_EQ( path( s ) != path( x ), s != x );
	CHECK( path( s ) == path( s ) );
}
