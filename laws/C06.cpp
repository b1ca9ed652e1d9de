#include "common.hpp"
#include "flut/string_tools.hpp"
PROPERTY( "C06", "sequences of up to 40 values of mixed types written with random delimiters (default or a custom delimiter set) and read back in order; lines of text; numeric text with a non-number at a random place. Non-trivial: at least two items." )
using std::string; using std::vector; using flut::char_stream;

struct Item { int type; string text; long long i; unsigned long long u; double d; };
static Item gen_item( Gen& g, bool allow_str ) {
	Item it{}; it.type = (int)g.below( allow_str ? 11 : 10 ); char b[ 64 ];
	switch ( it.type ) {
	case 0: it.i = g.i64( INT32_MIN, INT32_MAX ); break;
	case 1: it.u = g.u64( 0, UINT32_MAX ); break;
	case 2: case 3: it.i = g.i64( INT64_MIN, INT64_MAX ); break;
	case 4: it.u = g.u64( 0, UINT64_MAX ); break;
	case 5: it.i = g.i64( INT16_MIN, INT16_MAX ); break;
	case 6: case 7: it.d = g.real( 1e9 ); if ( g.chance( 1, 4 ) ) { it.text = g.chance( 1, 3 ) ? between_floats( g ) : g.pick( { "1e30", "-2.5e-30", "1.7976931348623157e308", "2.2250738585072014e-308", ".5", "5.", "-0", "+1.25", "1E5", "1e+05", "0.1", "0x1p4", "123456789012345678901234567890" } ); return it; } break;
	case 8: it.u = g.u64( 0, UINT64_MAX ); break;
	case 9: it.u = g.u64( 0, UINT16_MAX ); break;
	default: it.text = swell( g, g.str( 20, "ab;=\"'{}\\.1", true, " \t\r\n\f\v" ), 5000 ); if ( it.text.empty() ) it.text = "x"; return it;
	}
	if ( it.type == 1 || it.type == 4 || it.type >= 8 ) snprintf( b, sizeof b, "%llu", it.u );
	else if ( it.type < 6 ) snprintf( b, sizeof b, g.chance( 1, 8 ) ? "%+lld" : "%lld", it.i );
	else { snprintf( b, sizeof b, g.pick( { "%.17g", "%.4f", "%.6e" } ), it.d ); }
	it.text = b; if ( it.type != 6 && it.type != 7 && g.chance( 1, 8 ) ) it.text.insert( isdigit( it.text[ 0 ] ) ? 0 : 1, g.size( 4 ), '0' ); // numbers are decimal, also with leading zeros
	return it;
}
static void read_check( char_stream& cs, const Item& it ) {
	switch ( it.type ) {
	case 0: { int v = 7; cs >> v; CHECK_EQ( v, (int)it.i ); break; }
	case 1: { unsigned v = 7; cs >> v; CHECK_EQ( v, (unsigned)it.u ); break; }
	case 2: { long v = 7; cs >> v; CHECK_EQ( v, (long)it.i ); break; }
	case 3: { long long v = 7; cs >> v; CHECK_EQ( v, it.i ); break; }
	case 4: { unsigned long v = 7; cs >> v; CHECK_EQ( v, (unsigned long)it.u ); break; }
	case 5: { short v = 7; cs >> v; CHECK_EQ( v, (short)it.i ); break; }
	case 6: { double v = 7; cs >> v; CHECK_EQ( v, strtod( it.text.c_str(), nullptr ) ); break; }
	case 7: { float v = 7; cs >> v; CHECK_EQ( v, strtof( it.text.c_str(), nullptr ) ); break; }
	case 8: { unsigned long long v = 7; cs >> v; CHECK_EQ( v, it.u ); break; }
	case 9: { unsigned short v = 7; cs >> v; CHECK_EQ( v, (unsigned short)it.u ); break; }
	default: { string v; cs >> v; CHECK_EQ( v, it.text ); }
	}
}

LAW( read_back, 200000 )
{
	bool custom = g.chance( 1, 3 ); const char* delim = custom ? " ,;\n" : flut::default_delimiters();
	vector< Item > items; Seq s( g, 40 ); while ( s.more() ) items.push_back( gen_item( g, !custom ) );
	string ds = custom ? " ,;\n" : " \t\r\n\f\v";
	auto sep = [&]( size_t min ) { string r; Seq q( g, 4, min ); while ( q.more() ) r += g.byte( ds.c_str(), false ); return r; };
	string text = sep( 0 );
	for ( size_t i = 0; i < items.size(); ++i ) { if ( i ) text += sep( 1 ); text += items[ i ].text; }
	text += sep( 0 );
	g.note( "text", text ).note( "items", items.size() ); g.nontrivial( items.size() >= 2 );
	std::unique_ptr< char[] > buf( new char[ text.size() + 1 ] ); memcpy( buf.get(), text.c_str(), text.size() + 1 );
	bool owned = g.coin();
	char_stream cs = owned ? char_stream( string( text ), delim ) : char_stream( buf.get(), delim );
	for ( size_t i = 0; i < items.size(); ++i ) {
		CHECK_MSG( cs.good(), "stream is not good before item " + std::to_string( i ) );
		read_check( cs, items[ i ] );
		CHECK( !cs.fail() );
	}
	CHECK( cs.eof() ); CHECK( !cs.good() ); CHECK( !cs.fail() );
}

LAW( failure_is_reported, 100000 )
{
	vector< int > good; Seq s( g, 10 ); while ( s.more() ) good.push_back( g.i( -1000, 1000 ) );
	string bad = g.pick( { "x", "abc", "-", "+", "=1", "..", "_1", "\"1\"" } ), text;
	for ( int v : good ) text += std::to_string( v ) + g.pick( { " ", "\n", "\t" } );
	text += bad; if ( g.coin() ) text += " 5";
	g.note( "text", text ); g.nontrivial( !good.empty() );
	char_stream cs( text.c_str() );
	for ( int v : good ) { int x; cs >> x; CHECK( cs.good() ); CHECK_EQ( x, v ); }
	switch ( g.below( 10 ) ) { case 0: { int v; cs >> v; break; } case 1: { double v; cs >> v; break; } case 2: { unsigned long long v; cs >> v; break; } case 3: { float v; cs >> v; break; } case 4: { unsigned v; cs >> v; break; } case 5: { long v; cs >> v; break; } case 6: { long long v; cs >> v; break; } case 7: { unsigned long v; cs >> v; break; } case 8: { unsigned short v; cs >> v; break; } default: { short v; cs >> v; } }
	CHECK( cs.fail() ); CHECK( !cs.good() );
	CHECK_EQ( flut::str_to_vec< int >( text, flut::no_index ), good );
}

LAW( lines, 100000 )
{
	vector< string > want; string text;
	Seq s( g, 20 );
	while ( s.more() ) {
		string l = g.str( 12, " \t", false ) + swell( g, g.str( 40, "ab= #[]", true, "\r\n" ), 2000 ) + ( g.chance( 1, 4 ) ? string( " \t" ) : string() );
		text += l + g.pick( { "\n", "\r\n", "\n\n", "\r\n\r\n" } );
		size_t b = 0; while ( b < l.size() && strchr( " \t\f\v", l[ b ] ) ) ++b; // leading white space and blank lines are skipped
		if ( b < l.size() ) want.push_back( l.substr( b ) );
	}
	if ( g.chance( 1, 3 ) && !text.empty() ) while ( !text.empty() && ( text.back() == '\n' || text.back() == '\r' ) ) text.pop_back();
	g.note( "text", text ); g.nontrivial( want.size() > 1 );
	char_stream cs = char_stream( string( text ) ); vector< string > got;
	while ( cs.good() && got.size() <= want.size() ) got.push_back( cs.get_line() );
	CHECK_EQ( got, want );
}

LAW( characters, 100000 )
{
	string s = g.str( 60, "ab {}%\n", true ); size_t b = s.find_first_not_of( flut::default_delimiters() );
	g.note( "s", s ); g.nontrivial( s.size() > 1 );
	string want = b == string::npos ? string() : s.substr( b ), got;
	char_stream cs( s.c_str() );
	while ( cs.good() ) { char p = cs.peekc(); char c = cs.getc(); CHECK_EQ( (int)p, (int)c ); got += c; CHECK( got.size() <= want.size() ); }
	CHECK_EQ( got, want ); CHECK( cs.eof() );
}

LAW( mixed_reading, 80000 ) // numbers, words, lines and characters taken from one stream in any order
{
	struct Op { int kind; Item it; string s; }; vector< Op > ops; string text = g.str( 3, " \t\n" ), blank; Seq s( g, 25 );
	while ( s.more() ) {
		Op o; o.kind = (int)g.weighted( { 4, 2, 3, 2, 1 } ); auto sep = [&]() { string r( 1, " \t\n\r\f\v"[ g.below( 6 ) ] ); return r + g.str( 2, " \t\n" ); };
		switch ( o.kind ) {
		case 0: o.it = gen_item( g, false ); text += o.it.text + sep(); break;
		case 1: o.s = g.ident( 10 ); text += o.s + sep(); break;
		case 2: o.s = g.ident( 5 ) + g.str( 20, "ab= #\t", true, "\r\n" ); text += o.s + g.pick( { "\n", "\r\n", "\r", "\n \n" } ); break;
		case 4: do o.it = gen_item( g, false ); while ( o.it.type == 6 || o.it.type == 7 ); o.s = string( 1, "x{=%.e,:-"[ g.below( 9 ) ] ); text += o.it.text + o.s; break; // a whole number ends where its digits end
		default: o.s = string( 1, "x{=%\"\\"[ g.below( 6 ) ] ); text += o.s;
		}
		ops.push_back( o );
	}
	g.note( "text", text ); g.nontrivial( ops.size() > 2 ); char_stream cs = g.coin() ? char_stream( string( text ) ) : char_stream( text.c_str() );
	for ( auto& o : ops ) {
		CHECK( cs.good() ); CHECK( !cs.eof() && !cs.fail() );
		if ( o.kind == 4 ) { read_check( cs, o.it ); CHECK( cs.good() ); CHECK_EQ( cs.peekc(), o.s[ 0 ] ); CHECK_EQ( cs.getc(), o.s[ 0 ] ); } else if ( o.kind == 0 ) read_check( cs, o.it ); else if ( o.kind == 1 ) { string v; cs >> v; CHECK_EQ( v, o.s ); } else if ( o.kind == 2 ) CHECK_EQ( cs.get_line(), o.s ); else { CHECK_EQ( cs.peekc(), o.s[ 0 ] ); CHECK_EQ( cs.peekc(), o.s[ 0 ] ); CHECK_EQ( cs.getc(), o.s[ 0 ] ); }
	}
	CHECK( cs.eof() ); CHECK( !cs.good() ); CHECK( !cs.fail() );
}

LAW( copies, 60000 ) // a copied, moved or assigned stream goes on reading where the original was
{
	vector< Item > items; Seq s( g, 12 ); while ( s.more() ) items.push_back( gen_item( g, true ) ); string text; for ( auto& i : items ) text += i.text + g.pick( { " ", "\n" } );
	string other = "17 18 19"; g.note( "text", text ); g.nontrivial( items.size() > 1 ); string keep = text; auto make = [&]( const string& t, bool owned ) { return owned ? char_stream( string( t ) ) : char_stream( t.c_str() ); };
	vector< std::pair< std::unique_ptr< char_stream >, size_t > > v; v.emplace_back( std::unique_ptr< char_stream >( new char_stream( make( keep, g.coin() ) ) ), 0 ); Seq q( g, 25 );
	while ( q.more() ) {
		size_t k = g.below( v.size() ), n = v[ k ].second; auto& p = v[ k ].first;
		switch ( g.weighted( { 6, 2, 2, 1, 1, 1 } ) ) {
		case 0: if ( n < items.size() ) { CHECK( p->good() ); read_check( *p, items[ n ] ); v[ k ].second++; } break;
		case 1: { std::unique_ptr< char_stream > c( new char_stream( *p ) ); v.emplace_back( std::move( c ), n ); break; }
		case 2: { std::unique_ptr< char_stream > c( new char_stream( std::move( *p ) ) ); v[ k ].first = std::move( c ); break; } // the source goes
		case 3: { std::unique_ptr< char_stream > c( new char_stream( make( other, g.coin() ) ) ); *c = *p; v.emplace_back( std::move( c ), n ); break; }
		case 4: { std::unique_ptr< char_stream > c( new char_stream( make( other, g.coin() ) ) ); *c = std::move( *p ); v[ k ].first = std::move( c ); break; }
		default: if ( v.size() > 1 ) v.erase( v.begin() + k ); }
	}
	for ( auto& e : v ) { for ( size_t i = e.second; i < items.size(); ++i ) { CHECK( e.first->good() ); read_check( *e.first, items[ i ] ); } CHECK( e.first->eof() ); CHECK( !e.first->fail() ); }
}

LAW( scanning, 80000 )
{
	int a = -7, a0 = a; double b = -7, b0 = b; string c = "old", c0 = c; long d = -7, d0 = d; // scan_str fills the variables in order, those beyond the text keep their value
	int n = (int)g.below( 5 ), wa = g.i( -100000, 100000 ); double wb = g.i( -100000, 100000 ) / 64.0; string wc = g.ident( 12 ); long wd = (long)g.i64( INT64_MIN, INT64_MAX );
	char t[ 64 ]; vector< string > p; p.push_back( std::to_string( wa ) ); snprintf( t, sizeof t, "%.10g", wb ); p.push_back( t ); p.push_back( wc ); p.push_back( std::to_string( wd ) );
	string text = g.str( 3, " \t\n" ); for ( int i = 0; i < n; ++i ) { if ( i ) { string s = g.str( 3, " \t\n" ); text += s.empty() ? " " : s; } text += p[ i ]; } text += g.str( 3, " \t\n" );
	g.note( "text", text ).note( "items", n ); g.nontrivial( n > 1 );
	if ( n == 0 ) return;
	if ( g.coin() ) flut::scan_str( text, a, b, c, d ); else { if ( n == 1 ) flut::scan_str( text, a ); else if ( n == 2 ) flut::scan_str( text, a, b ); else if ( n == 3 ) flut::scan_str( text, a, b, c ); else flut::scan_str( text, a, b, c, d ); }
	CHECK_EQ( a, wa ); CHECK_EQ( b, n > 1 ? wb : b0 ); CHECK_EQ( c, n > 2 ? wc : c0 ); CHECK_EQ( d, n > 3 ? wd : d0 );
}

LAW( files, 20000 )
{
	vector< int > v; string text; Seq s( g, 30 ); while ( s.more() ) { v.push_back( g.i( -100000, 100000 ) ); text += std::to_string( v.back() ) + "\n"; }
	string f = pbt::scratch_dir() + "/cs.txt"; pbt::write_file( f, text ); g.note( "text", text ); g.nontrivial( v.size() > 1 );
	vector< int > got; flut::error_code ec;
	{ char_stream cs = flut::load_char_stream( flut::path( f ), flut::default_delimiters(), &ec ); while ( cs.good() ) { int x = -1; cs >> x; got.push_back( x ); CHECK( got.size() <= v.size() ); } }
	CHECK( ec.ok() ); CHECK_EQ( got, v );
	got.clear(); { char_stream cs{ flut::path( f ) }; while ( cs.good() ) { int x = -1; cs >> x; got.push_back( x ); CHECK( got.size() <= v.size() ); } }
	CHECK_EQ( got, v );
}

// streams of different threads do not meet
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); vector< vector< long > > v( n ); vector< string > text( n ); g.nontrivial( true );
	for ( int t = 0; t < n; ++t ) { Seq s( g, 20, 2 ); while ( s.more() ) { v[ t ].push_back( g.i64( INT64_MIN, INT64_MAX ) ); text[ t ] += std::to_string( v[ t ].back() ) + g.pick( { " ", "\n" } ) + "word" + char( 'a' + t ) + " "; } g.note( "text", text[ t ] ); }
	CHECK_EQ( wrong_in_threads( n, 100, [&]( int t, int k ) { char_stream cs = k % 2 ? char_stream( string( text[ t ] ) ) : char_stream( text[ t ].c_str() ); for ( long x : v[ t ] ) { long y = 0; string w; cs >> y >> w; if ( y != x || w != string( "word" ) + char( 'a' + t ) ) return false; } return cs.eof(); } ), 0 );
}
