#include "common.hpp"
#include "flut/filesystem.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
PROPERTY( "C16", "histories of up to 25 file operations (copy with and without overwriting, nested folder creation, unique folders, reading, change of folder) in a scratch folder, names and contents of any bytes. Non-trivial: at least four operations, one of which succeeded." )
static pbt::NoLongStrings names_are_limited;
using std::string; using std::vector; using flut::path;
// model: relative path -> (is folder, contents)
struct Entry { bool dir; string data; bool operator==( const Entry& o ) const { return dir == o.dir && data == o.data; } };
using Fs = std::map< string, Entry >;
static void scan( const string& base, const string& rel, Fs& out ) {
	DIR* d = opendir( ( base + rel ).c_str() ); if ( !d ) return;
	vector< string > names; while ( auto* e = readdir( d ) ) { string n = e->d_name; if ( n != "." && n != ".." ) names.push_back( n ); } closedir( d );
	for ( auto& n : names ) { string r = rel + "/" + n; struct stat st; if ( lstat( ( base + r ).c_str(), &st ) ) continue; if ( S_ISDIR( st.st_mode ) ) { out[ r ] = { true, "" }; scan( base, r, out ); } else out[ r ] = { false, pbt::read_file( base + r ) }; }
}
static void wipe( const string& base, const string& rel ) { Fs f; scan( base, rel, f ); for ( auto it = f.rbegin(); it != f.rend(); ++it ) { if ( it->second.dir ) rmdir( ( base + it->first ).c_str() ); else unlink( ( base + it->first ).c_str() ); } rmdir( ( base + rel ).c_str() ); }
static string show_fs( const Fs& f ) { string o; for ( auto& e : f ) o += e.first + ( e.second.dir ? "/" : "=" + Gen::esc( e.second.data ) ) + " "; return o; }
#define CHECK_FS( got_, want_ ) do { Fs g_ = ( got_ ), w_ = ( want_ ); if ( !( g_ == w_ ) ) FAIL( "files are " + show_fs( g_ ) + ", expected " + show_fs( w_ ) ); } while ( 0 )
static string contents( Gen& g ) { if ( g.chance( 1, 20 ) ) return string( g.size( 70000 ), 'q' ); string s = g.str( 60, "ab\n\r\x1a ", true ); if ( g.chance( 1, 4 ) ) s += string( 1, '\0' ) + "z"; return s; }
static bool parent_ok( const Fs& m, const string& p ) { size_t n = p.rfind( '/' ); return n == 0 || ( m.count( p.substr( 0, n ) ) && m.at( p.substr( 0, n ) ).dir ); }

LAW( history, 40000 )
{
	static const vector< string > names = { "/a", "/b.txt", "/d", "/d/x", "/d/e", "/d/e/f", "/n/o/p", "/n", "/ sp ace", "/d/e/f/g/h" };
	string base = pbt::scratch_dir() + "/fs"; wipe( base, "" ); mkdir( base.c_str(), 0777 );
	Fs m; string log; int ok = 0, ops = 0; Seq s( g, 25 ); auto part = [&]() { string p = g.str( 8, "ab. ()", true, "/\\" ); return p.empty() || p == "." || p == ".." ? string( "p" ) : p; };
	vector< string > own; for ( Seq o( g, 3 ); o.more(); ) { string p = "/" + part(); if ( g.coin() ) p += "/" + part(); own.push_back( p ); } // names of this case
	auto name = [&]() { return !own.empty() && g.chance( 1, 3 ) ? g.pick( own ) : g.pick( names ); };
	while ( s.more() ) {
		string a = name(), b = name(); size_t op = g.weighted( { 4, 4, 4, 2, 3, 3, 2 } ); ++ops;
		if ( g.noting ) log += " " + std::to_string( op ) + a + b;
		switch ( op ) {
		case 0: { string c = contents( g ); if ( parent_ok( m, a ) && !( m.count( a ) && m[ a ].dir ) ) { pbt::write_file( base + a, c ); m[ a ] = { false, c }; } break; }
		case 1: { // copy_file
			bool over = g.coin(); if ( a == b && m.count( a ) ) { bool r = flut::copy_file( path( base + a ), path( base + b ), over ); if ( !over || m[ a ].dir ) CHECK( !r ); break; } // onto itself: nothing is lost
			bool want = m.count( a ) && !m[ a ].dir && parent_ok( m, b ) && ( !m.count( b ) || ( over && !m[ b ].dir ) );
			CHECK_EQ( flut::copy_file( path( base + a ), path( base + b ), over ), want );
			if ( want ) { m[ b ] = m[ a ]; ++ok; } break; }
		case 2: { // create_directories
			bool blocked = false; string p; for ( size_t i = 1; i <= a.size(); ++i ) if ( i == a.size() || a[ i ] == '/' ) { p = a.substr( 0, i ); if ( m.count( p ) && !m[ p ].dir ) blocked = true; }
			bool there = m.count( a ) != 0; bool r = flut::create_directories( path( base + a ) );
			CHECK_EQ( r, !blocked && !there );
			if ( !blocked ) { for ( size_t i = 1; i <= a.size(); ++i ) if ( i == a.size() || a[ i ] == '/' ) m[ a.substr( 0, i ) ] = { true, "" }; if ( r ) ++ok; } break; }
		case 3: { // create_unique_folder
			bool blocked = false; for ( size_t i = 1; i < a.size(); ++i ) if ( a[ i ] == '/' && m.count( a.substr( 0, i ) ) && !m[ a.substr( 0, i ) ].dir ) blocked = true;
			if ( blocked ) { CHECK_THROWS( flut::create_unique_folder( path( base + a ), 5 ) ); break; }
			string want; for ( int i = 0; i < 1000; ++i ) { want = i ? a + " (" + std::to_string( i ) + ")" : a; if ( !m.count( want ) ) break; }
			path u = flut::create_unique_folder( path( base + a ) ); CHECK_EQ( u.str(), base + want ); ++ok;
			for ( size_t i = 1; i <= want.size(); ++i ) if ( i == want.size() || want[ i ] == '/' ) m[ want.substr( 0, i ) ] = { true, "" };
			break; }
		case 4: { // queries
			bool there = m.count( a ) != 0, dir = there && m[ a ].dir;
			CHECK_EQ( flut::exists( path( base + a ) ), there ); CHECK_EQ( flut::folder_exists( path( base + a ) ), dir );
			CHECK_EQ( flut::file_exists( path( base + a ) ), there && !dir );
			if ( g.chance( 1, 3 ) && mknod( ( base + "/sock" ).c_str(), S_IFSOCK | 0600, 0 ) == 0 ) { bool e = flut::exists( path( base + "/sock" ) ), f = flut::folder_exists( path( base + "/sock" ) ); unlink( ( base + "/sock" ).c_str() ); CHECK( e ); CHECK( !f ); } // neither file nor folder
			break; }
		case 6: { // remove
			if ( m.count( a ) && m[ a ].dir ) break;
			CHECK_EQ( flut::remove( path( base + a ) ), m.count( a ) != 0 ); if ( m.erase( a ) ) ++ok; break; }
		default: { // load_string
			bool there = m.count( a ) && !m[ a ].dir; flut::error_code ec; string t = flut::load_string( path( base + a ), &ec );
			CHECK_EQ( ec.ok(), there ); CHECK_EQ( t, there ? m[ a ].data : string() );
			if ( there ) { CHECK_EQ( flut::load_string( path( base + a ) ), t ); ++ok; } else CHECK_THROWS( flut::load_string( path( base + a ) ) ); }
		}
	}
	g.note( "ops", log ).note( "files", show_fs( m ) ); g.nontrivial( ops >= 4 && ok > 0 );
	Fs now; scan( base, "", now ); CHECK_FS( now, m );
	wipe( base, "" );
}

LAW( unique_folders, 1500 )
{
	string base = pbt::scratch_dir() + "/un"; wipe( base, "" ); mkdir( base.c_str(), 0777 );
	string name = base + "/" + g.str( 10, "ab .()1", true, "/\\" ); if ( name.back() == '/' ) name += "u"; { string l = name.substr( name.rfind( '/' ) + 1 ); if ( l == "." || l == ".." ) name += "u"; }
	g.note( "name", name.substr( base.size() ) );
	std::set< string > seen; int n = g.i( 1, 14 ), limit = g.i( 1, 12 ); g.note( "calls", n ).note( "attempts", limit ); g.nontrivial( n > 2 );
	for ( int i = 0; i < n; ++i ) {
		if ( i >= limit ) { CHECK_THROWS( flut::create_unique_folder( path( name ), limit ) ); continue; }
		path p = flut::create_unique_folder( path( name ), limit );
		CHECK_MSG( seen.insert( p.str() ).second, "returned twice: " + p.str() ); CHECK( flut::folder_exists( p ) );
		CHECK_EQ( p.str(), i ? name + " (" + std::to_string( i ) + ")" : name );
	}
	Fs now; scan( base, "", now ); CHECK_EQ( now.size(), (size_t)std::min( n, limit ) );
	wipe( base, "" );
}

LAW( copy_contents, 15000 )
{
	string a = pbt::scratch_dir() + "/src.bin", b = pbt::scratch_dir() + "/dst.bin"; string x; size_t n = g.size( g.chance( 1, 4 ) ? 200000 : 200 ) + 1; char seed = (char)g.below( 256 );
	for ( size_t i = 0; i < n; ++i ) x += (char)( seed + i * 7 + ( i >> 8 ) ); // all byte values
	bool existing = g.coin(), over = g.coin(); string old( g.size( 300 ), 'o' ); g.note( "bytes", n ).note( "first", (int)seed ).note( "existing", existing ).note( "overwrite", over ); g.nontrivial( n > 1 );
	pbt::write_file( a, x ); if ( existing ) pbt::write_file( b, old ); else unlink( b.c_str() );
	bool want = !existing || over; CHECK_EQ( flut::copy_file( path( a ), path( b ), over ), want );
	CHECK( pbt::read_file( a ) == x ); CHECK( pbt::read_file( b ) == ( want ? x : old ) );
	CHECK( flut::load_string( path( a ) ) == x );
	// a missing source never touches the target
	pbt::write_file( b, old ); CHECK_EQ( flut::copy_file( path( a + "no" ), path( b ), over ), false ); CHECK( pbt::read_file( b ) == old );
	unlink( b.c_str() ); CHECK_EQ( flut::copy_file( path( a + "no" ), path( b ), over ), false ); CHECK( !pbt::file_there( b ) );
	// nor does a folder, and a file copied onto itself keeps its contents, by another name of it too
	CHECK_EQ( flut::copy_file( path( pbt::scratch_dir() ), path( b ), over ), false ); CHECK( !pbt::file_there( b ) ); CHECK_EQ( flut::copy_file( path( a ), path( pbt::scratch_dir() ), over ), false );
	flut::copy_file( path( a ), path( a ), over ); CHECK( pbt::read_file( a ) == x ); string l = pbt::scratch_dir() + "/src.link"; unlink( l.c_str() ); CHECK( symlink( a.c_str(), l.c_str() ) == 0 ); flut::copy_file( path( l ), path( a ), over ); flut::copy_file( path( a ), path( l ), over ); CHECK( pbt::read_file( a ) == x ); unlink( l.c_str() );
	if ( pbt::file_there( "/dev/full" ) ) CHECK_EQ( flut::copy_file( path( a ), path( "/dev/full" ), true ), false ); // no room
	pbt::write_file( a, "" ); pbt::write_file( b, old ); CHECK_EQ( flut::copy_file( path( a ), path( b ), true ), true ); CHECK( pbt::read_file( b ).empty() && pbt::file_there( b ) ); // an empty file is a file
}

LAW( known_folders, 3000 )
{
	string home = "/" + g.str( 40, "ab/ .", true ); g.note( "home", home ); g.nontrivial( home.size() > 2 ); const char* h = getenv( "HOME" ); string old = h ? h : "";
	setenv( "HOME", home.c_str(), 1 ); string c = flut::get_config_folder().str(), d = flut::get_documents_folder().str(); if ( h ) setenv( "HOME", old.c_str(), 1 ); else unsetenv( "HOME" );
	CHECK_EQ( c, home + "/.config" ); CHECK_EQ( d, home );
}

LAW( current_folder, 3000 )
{
	string base = pbt::scratch_dir() + "/cwd"; mkdir( base.c_str(), 0777 ); string d = base + "/" + std::to_string( g.i( 0, 50 ) ) + g.str( 200, "ab c" ); mkdir( d.c_str(), 0777 );
	g.note( "folder", d.substr( base.size() ) ); g.nontrivial( d.size() > base.size() + 4 );
	path old = flut::current_path(); flut::current_path( path( d ) ); string got = flut::current_path().str();
	pbt::write_file( d + "/f", "1" ); bool rel = flut::file_exists( path( "f" ) ); flut::current_path( old );
	CHECK_EQ( got, d ); CHECK( rel ); CHECK( flut::current_path() == old ); unlink( ( d + "/f" ).c_str() ); rmdir( d.c_str() );
}
