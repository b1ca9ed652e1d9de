#include "common.hpp"
#include "flut/string_tools.hpp"
PROPERTY( "C02", "strings up to 300 bytes over a small alphabet of letters, separators and white space plus arbitrary bytes, with separator sets, counts (negative, zero, beyond the end) and affixes derived from the string. Non-trivial: the string is not empty and the operation changes or divides it." )
using std::string;
static const char* ws = " \t\r\n\f\v";
static const char* pref = "ab; ,=\t\n.\r\x0b";
static bool in( char c, const string& set ) { return set.find( c ) != string::npos; }
static string m_trim( const string& s, const string& set, bool left ) {
	size_t b = 0, e = s.size();
	if ( left ) while ( b < e && in( s[ b ], set ) ) ++b;
	while ( e > b && in( s[ e - 1 ], set ) ) --e;
	string r; for ( size_t i = b; i < e; ++i ) r += s[ i ];
	return r;
}

LAW( split, 250000 )
{
	string s = swell( g, g.str( 300, pref, true ), 2000, 9000 ), sep = g.str( g.chance( 1, 5 ) ? 12 : 4, ";, =ab\t", true ); if ( sep.empty() ) sep = ";";
	g.note( "s", s ).note( "sep", sep );
	std::vector< string > want; string cur;
	for ( char c : s ) if ( in( c, sep ) ) { if ( !cur.empty() ) want.push_back( cur ); cur.clear(); } else cur += c;
	if ( !cur.empty() ) want.push_back( cur );
	g.nontrivial( want.size() >= 2 );
	auto got = flut::split_str( s, sep );
	CHECK_EQ( got, want );
	size_t first = s.size(), last = s.size();
	for ( size_t i = s.size(); i-- > 0; ) if ( in( s[ i ], sep ) ) first = i;
	for ( size_t i = 0; i < s.size(); ++i ) if ( in( s[ i ], sep ) ) last = i;
	CHECK_EQ( flut::left_of_str( s, sep ), string( s.begin(), s.begin() + first ) );
	CHECK_EQ( flut::right_of_str( s, sep ), last == s.size() ? s : string( s.begin() + last + 1, s.end() ) );
	auto kv = flut::make_key_value_str( s, sep );
	if ( first == s.size() ) { CHECK_EQ( kv.first, s ); CHECK_EQ( kv.second, string() ); }
	else {
		CHECK_EQ( kv.first, m_trim( string( s.begin(), s.begin() + first ), ws, true ) );
		CHECK_EQ( kv.second, m_trim( string( s.begin() + first + 1, s.end() ), ws, true ) );
	}
}

LAW( trim, 250000 )
{
	string s = swell( g, g.str( 12, ws, false ) ) + swell( g, g.str( 100, pref, true ) ) + swell( g, g.str( 12, ws, false ) );
	g.note( "s", s );
	string want = m_trim( s, ws, true );
	g.nontrivial( !want.empty() && want != s ); g.label( "all-space", want.empty() && !s.empty() );
	CHECK_EQ( flut::trim_str( s ), want );
	CHECK_EQ( flut::trim_right_str( s ), m_trim( s, ws, false ) );
	string set = g.str( 4, "ab;, ", true ); if ( set.empty() ) set = "a";
	g.note( "trim_chars", set );
	CHECK_EQ( flut::trim_str( s, set.c_str() ), m_trim( s, set, true ) );
	CHECK_EQ( flut::trim_right_str( s, set.c_str() ), m_trim( s, set, false ) );
}

LAW( slices, 250000 )
{
	string s = swell( g, g.str( 200, pref, true ), 2000, 20000 );
	long n = g.chance( 1, 20 ) ? ( g.coin() ? 2147483647l : -2147483647l ) : g.i( -(int)s.size() - 3, (int)s.size() + 3 );
	g.note( "s", s ).note( "n", n ); g.nontrivial( !s.empty() && n != 0 );
	long sz = (long)s.size();
	long keep = n >= 0 ? std::min( n, sz ) : std::max( 0l, sz + n );
	CHECK_EQ( flut::left_str( s, (int)n ), string( s.begin(), s.begin() + keep ) );
	CHECK_EQ( flut::right_str( s, (int)n ), string( s.end() - keep, s.end() ) );
	size_t pos = g.size( s.size() + 2 ), cnt = g.chance( 1, 5 ) ? string::npos : g.size( s.size() + 4 );
	g.note( "pos", pos ).note( "count", cnt );
	if ( pos > s.size() ) CHECK_THROWS( flut::mid_str( s, pos, cnt ) );
	else CHECK_EQ( flut::mid_str( s, pos, cnt ), string( s.begin() + pos, s.begin() + pos + std::min( cnt, s.size() - pos ) ) );
	if ( pos <= s.size() ) CHECK_EQ( flut::mid_str( s, pos ), string( s.begin() + pos, s.end() ) );
}

LAW( affixes, 250000 )
{
	string s = g.str( 200, "ab", true ), t;
	switch ( g.below( 4 ) ) {
	case 0: t = s.substr( 0, g.size( s.size() ) ); break;
	case 1: t = s.substr( g.size( s.size() ) ); break;
	case 2: { size_t p = g.size( s.size() ); t = s.substr( p, g.size( s.size() - p ) ); break; }
	default: t = g.str( 6, "ab", true );
	}
	if ( g.chance( 1, 4 ) && !t.empty() ) t[ g.below( t.size() ) ] ^= 1;
	if ( t.find( '\0' ) != string::npos ) t = "a";
	if ( g.chance( 1, 6 ) ) t += g.byte( "ab", false );
	g.note( "s", s ).note( "t", t ); g.nontrivial( !t.empty() && t.size() <= s.size() );
	auto at = [&]( size_t p ) { if ( p + t.size() > s.size() ) return false; for ( size_t i = 0; i < t.size(); ++i ) if ( s[ p + i ] != t[ i ] ) return false; return true; };
	CHECK_EQ( flut::str_begins_with( s, t ), at( 0 ) );
	CHECK_EQ( flut::str_ends_with( s, t ), t.size() <= s.size() && at( s.size() - t.size() ) );
	size_t from = g.size( s.size() ); g.note( "from", from );
	for ( size_t start : { size_t( 0 ), from } ) {
		size_t want = string::npos;
		for ( size_t p = start; p <= s.size(); ++p ) if ( at( p ) ) { want = p; break; }
		CHECK_EQ( flut::in_str( s, t, start ), want );
	}
}

// in every thread, whatever the others do at the same time
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); std::vector< std::vector< string > > w( n ); std::vector< string > text( n ); g.nontrivial( true );
	for ( int t = 0; t < n; ++t ) { Seq s( g, 20, 2 ); while ( s.more() ) { string x = g.str( 12, "abc.", false ) + char( 'A' + t ); w[ t ].push_back( x ); text[ t ] += ( text[ t ].empty() ? "" : ";" ) + x; } g.note( "text", text[ t ] ); }
	CHECK_EQ( wrong_in_threads( n, 150, [&]( int t, int k ) { auto& x = w[ t ][ k % w[ t ].size() ]; return flut::split_str( text[ t ], ";" ) == w[ t ] && flut::trim_str( " " + x + "\t" ) == x && flut::left_of_str( text[ t ], ";" ) == w[ t ].front() && flut::right_of_str( text[ t ], ";" ) == w[ t ].back() && flut::make_key_value_str( x + " = " + x ) == std::make_pair( x, x ); } ), 0 );
}
