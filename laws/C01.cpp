#include "common.hpp"
#include "flut/string_tools.hpp"
PROPERTY( "C01", "strings of any non-zero bytes up to 300 long, biased to quotes, backslashes, control characters, digits and bytes >= 128; arbitrary character buffers for decoding. Non-trivial: the string holds a character that must be escaped (or, for decoding, a backslash)." )

static const char* pref = "ab\"\\\n\t\r 019\x01\x1f\x7f\x80\xff'n";
static bool special( const std::string& s ) { for ( unsigned char c : s ) if ( c < 32 || c == '"' || c == '\\' ) return true; return false; }

LAW( quote_roundtrip, 400000 )
{
	std::string s = swell( g, g.str( 300, pref, true ), 2000, 9000 );
	g.note( "s", s ); g.nontrivial( special( s ) ); g.label( "high-bytes", std::any_of( s.begin(), s.end(), []( char c ) { return (unsigned char)c >= 128; } ) );
	std::string q = flut::quoted( s );
	CHECK( q.size() >= 2 && q.front() == '"' && q.back() == '"' );
	// inside: no raw control characters, no unescaped quotes
	bool esc = false;
	for ( size_t i = 1; i + 1 < q.size(); ++i ) {
		unsigned char c = q[ i ];
		CHECK_MSG( c >= 32, "control character in " + pbt::show( q ) );
		if ( esc ) esc = false;
		else if ( c == '\\' ) esc = true;
		else CHECK_MSG( c != '"', "unescaped quote in " + pbt::show( q ) );
	}
	CHECK_MSG( !esc, "closing quote is escaped: " + pbt::show( q ) );
	CHECK_EQ( flut::try_unquoted( q ), s );
}

LAW( optional_quotes, 300000 )
{
	std::string s = swell( g, g.str( 120, pref, true ), 2000, 9000 );
	g.note( "s", s ); g.nontrivial( !s.empty() );
	bool need = false;
	for ( unsigned char c : s ) need |= c <= 32 || c == '"' || c == '\\';
	CHECK_EQ( flut::needs_quotes( s ), need );
	CHECK_EQ( flut::try_quoted( s ), need ? flut::quoted( s ) : s );
	CHECK_EQ( flut::try_unquoted( flut::try_quoted( s ) ), s );
	if ( s.size() < 2 || s.front() != '"' || s.back() != '"' ) CHECK_EQ( flut::try_unquoted( s ), s );
}

LAW( char_roundtrip, 200000 )
{
	int c = g.i( 1, 255 ); std::string rest = g.str( 6, "01789\\\"n a", true );
	g.note( "char", c ).note( "rest", rest ); g.nontrivial( c < 32 || c == '"' || c == '\\' );
	std::string e = flut::encode_char( (char)c );
	std::string buf = e + rest; int len = -1;
	std::unique_ptr< char[] > exact( new char[ buf.size() ] ); memcpy( exact.get(), buf.data(), buf.size() );
	char d = flut::decode_char( exact.get(), buf.size(), &len );
	CHECK_EQ( (int)(unsigned char)d, c );
	CHECK_EQ( len, (int)e.size() );
}

// one escape: \\ \" \r \n \t, or one to three octal digits naming a control character; anything else is a '?'
static char ref_decode( const std::string& b, size_t at, size_t end, int& len ) {
	size_t n = end - at; len = 1; if ( b[ at ] != '\\' || n == 1 ) return b[ at ];
	len = 2; switch ( b[ at + 1 ] ) { case 0: return '?'; case '\\': case '"': return b[ at + 1 ]; case 'r': return '\r'; case 'n': return '\n'; case 't': return '\t'; }
	int v = 0, k = 0; while ( k < 3 && at + 1 + k < end && b[ at + 1 + k ] >= '0' && b[ at + 1 + k ] <= '7' ) v = v * 8 + b[ at + 1 + k++ ] - '0';
	len = 1 + k; return k > 0 && v > 0 && v < 32 ? (char)v : '?';
}

LAW( decode_safe, 300000 )
{
	int p = g.i( 0, 20 ), keep = flut::set_to_str_precision( p ); CHECK_EQ( flut::to_str_precision(), p ); CHECK_EQ( flut::set_to_str_precision( keep ), p ); CHECK_EQ( flut::to_str_precision(), keep );
	std::string b = g.str( 12, "\\\\0137nrt\"x8", true ); if ( b.empty() ) b = "\\";
	g.note( "buffer", b ); g.nontrivial( b.find( '\\' ) != std::string::npos );
	std::unique_ptr< char[] > exact( new char[ b.size() ] ); memcpy( exact.get(), b.data(), b.size() );
	for ( size_t at = 0; at < b.size(); ) { // decoding consumes at least one and never more than the available characters
		int len = -1;
		char c = flut::decode_char( exact.get() + at, b.size() - at, &len );
		CHECK_MSG( len >= 1 && size_t( len ) <= b.size() - at, "consumed " + std::to_string( len ) );
		int wlen = 0; char want = ref_decode( b, at, b.size(), wlen ); CHECK_EQ( (int)c, (int)want ); CHECK_EQ( len, wlen );
		at += len;
	}
	// any text can be unquoted; the result of unquoting is never longer than the text
	std::string t = "\"" + b + "\"";
	CHECK( flut::try_unquoted( t ).size() <= b.size() ); { std::string want; for ( size_t at = 1; at < t.size() - 1 && t[ at ] != '"'; ) { int len = 0; want += ref_decode( t, at, t.size() - 1, len ); at += len; } CHECK_EQ( flut::try_unquoted( t ), want ); }
	CHECK( flut::try_unquoted( b ).size() <= b.size() );
}

// in every thread, whatever the others quote at the same time
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); std::vector< std::string > v; for ( int t = 0; t < n; ++t ) { std::string s = g.str( 60, pref, true ); s += char( 1 + t ); v.push_back( s ); g.note( "s", s ); } g.nontrivial( true );
	std::vector< std::string > q, e; for ( auto& s : v ) { q.push_back( flut::quoted( s ) ); e.push_back( flut::encode_char( s.back() ) ); } // checked on its own above
	CHECK_EQ( wrong_in_threads( n, 200, [&]( int t, int ) { std::string a = flut::quoted( v[ t ] ); return a == q[ t ] && flut::try_unquoted( a ) == v[ t ] && flut::encode_char( char( 1 + t ) ) == e[ t ]; } ), 0 );
}
