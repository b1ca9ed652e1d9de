#include "common.hpp"
#include "flut/string_tools.hpp"
PROPERTY( "C07", "sequences of up to 40 tokens (plain words, single-character operators, quoted text with escapes) rendered with random delimiters and read back; arbitrary text for termination and memory safety. Non-trivial: at least two tokens, or text with a quote or backslash." )
using std::string; using std::vector; using flut::char_stream;

LAW( token_roundtrip, 250000 )
{
	const char* ops = g.pick( { "={}%", "", "+-*/()", "=" } ); const char* quotes = g.pick( { "\"", "\"'", "'" } );
	const char* delim = g.pick( { " \t\r\n\f\v", "\n;", " ," } );
	vector< string > want; string text; bool last_is_op = true;
	Seq s( g, 40 ); auto sep = [&]( size_t min ) { Seq q( g, 3, min ); while ( q.more() ) text += g.byte( delim, false ); };
	sep( 0 );
	while ( s.more() ) {
		size_t kind = g.weighted( { 4, *ops ? 3 : 0, 4 } ); if ( kind == 1 && !*ops ) kind = 0;
		sep( kind == 1 || last_is_op ? 0 : 1 );
		if ( kind == 0 ) {
			string excl = string( ops ) + quotes + delim; string w = swell( g, g.str( 30, "abc019_.\\ ", true, excl.c_str() ), 2000 );
			string ok; for ( char c : w ) if ( excl.find( c ) == string::npos ) ok += c; if ( ok.empty() ) ok = "w";
			text += ok; want.push_back( ok ); last_is_op = false;
		}
		else if ( kind == 1 ) { char c = ops[ g.below( strlen( ops ) ) ]; text += c; want.push_back( string( 1, c ) ); last_is_op = true; }
		else { // quoted parts and text that directly follows them form one token
			string tok, excl = string( ops ) + quotes + delim; Seq p( g, g.chance( 1, 3 ) ? 3 : 1, 1 );
			while ( p.more() ) {
				char q = quotes[ g.below( strlen( quotes ) ) ]; string body = swell( g, g.str( 60, "ab \"\\={};\n\t,07", true, q == '\'' ? "'" : "" ), 2000 );
				bool raw = q == '\'' && g.coin(); text += q; for ( char c : body ) if ( raw && c == '"' ) text += c; else text += flut::encode_char( c ); text += q; tok += body; // the other quotation sign needs no escape
			}
			if ( g.chance( 1, 4 ) ) { string w = g.str( 10, "abc019_.\\ ", true, excl.c_str() ); for ( char c : w ) if ( excl.find( c ) == string::npos ) { text += c; tok += c; g.label( "text after quote" ); } }
			want.push_back( tok ); last_is_op = false;
		}
	}
	sep( 0 );
	g.note( "text", text ).note( "operators", ops ).note( "quotes", quotes ).note( "delim", delim ).note( "tokens", want ); g.nontrivial( want.size() >= 2 );
	vector< string > got; char_stream cs = g.coin() ? char_stream( string( text ), delim ) : char_stream( text.c_str(), delim );
	while ( cs.good() && got.size() <= want.size() ) got.push_back( cs.get_token( ops, quotes ) );
	CHECK_EQ( got, want ); CHECK( cs.eof() );
}

LAW( any_text_terminates, 250000 )
{
	string text = g.str( 120, "\"\\'={} a\n;%07", true );
	const char* ops = g.pick( { "={}%", "", "={}% " } ); const char* delim = g.pick( { " \t\r\n\f\v", "\n\r\t\v;" } );
	g.note( "text", text ).note( "operators", ops ).note( "delim", delim ); g.nontrivial( text.find_first_of( "\"\\'" ) != string::npos );
	std::unique_ptr< char[] > buf( new char[ text.size() + 1 ] ); memcpy( buf.get(), text.c_str(), text.size() + 1 );
	char_stream cs( buf.get(), delim ); size_t n = 0, total = 0;
	while ( cs.good() ) { string t = cs.get_token( ops, "\"'" ); total += t.size(); CHECK_MSG( ++n <= text.size(), "a call does not advance" ); }
	CHECK( total <= text.size() ); CHECK( cs.eof() );
}

// streams of different threads do not meet
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); vector< vector< string > > v( n ); vector< string > text( n ); g.nontrivial( true );
	for ( int t = 0; t < n; ++t ) { Seq s( g, 12, 2 ); while ( s.more() ) { string w = g.str( 20, "ab \"\\=\n", true ) + char( 'a' + t ), q; for ( char c : w ) q += flut::encode_char( c ); v[ t ].push_back( w ); v[ t ].push_back( "=" ); text[ t ] += "\"" + q + "\" = "; } g.note( "text", text[ t ] ); }
	CHECK_EQ( wrong_in_threads( n, 100, [&]( int t, int ) { char_stream cs( text[ t ].c_str() ); for ( auto& w : v[ t ] ) if ( cs.get_token( "=", "\"" ) != w ) return false; return cs.eof(); } ), 0 );
}
