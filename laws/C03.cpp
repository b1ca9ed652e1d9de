#include "common.hpp"
#include "flut/pattern_matcher.hpp"
PROPERTY( "C03", "patterns built from literals, '*', '?' and (negated) character sets and ranges, up to 24 pieces; subjects derived from the pattern and then mutated. Non-trivial: the pattern has a wildcard and the subject is not empty." )
using std::string; using std::vector;
struct Piece { int kind; char c; string set; bool neg; vector< std::pair< char, char > > ranges; }; // 0 literal 1 ? 2 * 3 set

static const char* chars = "abcABC019._-/ \\~%";
static bool in_set( const Piece& p, char c ) { for ( char x : p.set ) if ( x == c ) return true; for ( auto& r : p.ranges ) if ( c >= r.first && c <= r.second ) return true; return false; }
static bool one( const Piece& p, char c ) { return p.kind == 0 ? p.c == c : p.kind == 1 ? true : in_set( p, c ) != p.neg; }
static bool match( const vector< Piece >& ps, const string& s ) {
	vector< char > cur( s.size() + 1, 0 ); cur[ 0 ] = 1; // cur[i]: pieces so far match the first i characters
	for ( auto& p : ps ) {
		vector< char > nxt( s.size() + 1, 0 );
		if ( p.kind == 2 ) { bool on = false; for ( size_t i = 0; i <= s.size(); ++i ) { on = on || cur[ i ]; nxt[ i ] = on; } }
		else for ( size_t i = 0; i < s.size(); ++i ) nxt[ i + 1 ] = cur[ i ] && one( p, s[ i ] );
		cur = nxt;
	}
	return cur[ s.size() ];
}
static Piece gen_piece( Gen& g, const char* lits, bool any ) {
	Piece p{}; p.kind = (int)g.weighted( { 10, 3, 3, 3 } );
	if ( p.kind == 0 ) p.c = g.byte( lits, any, "*?[];|," );
	if ( p.kind == 3 ) {
		p.neg = g.chance( 1, 3 );
		Seq s( g, 3, 1 );
		while ( s.more() ) {
			if ( g.coin() ) p.set += g.byte( any ? "abcABC019_./*? \\~%" : "abcABC019_.*?/", false );
			else { static const char* r[] = { "ac", "az", "AC", "09", "AZ", "bb" }; const char* x = r[ g.below( 6 ) ]; p.ranges.push_back( { x[ 0 ], x[ 1 ] } ); }
		}
	}
	return p;
}
static string render( const vector< Piece >& ps ) {
	string s;
	for ( auto& p : ps ) switch ( p.kind ) {
	case 0: s += p.c; break; case 1: s += '?'; break; case 2: s += '*'; break;
	default: s += '['; if ( p.neg ) s += '!'; s += p.set; for ( auto& r : p.ranges ) { s += r.first; s += '-'; s += r.second; } s += ']';
	}
	return s;
}
static vector< Piece > gen_pattern( Gen& g, size_t max = 24, size_t min = 0, const char* lits = chars, bool any = true ) { vector< Piece > v; Seq s( g, max, min ); while ( s.more() ) v.push_back( gen_piece( g, lits, any ) ); return v; }
static string gen_subject( Gen& g, const vector< Piece >& ps, const char* cs = chars ) {
	if ( g.chance( 1, 12 ) ) return g.str( 30, cs, g.chance( 1, 4 ), ";|," );
	string s;
	for ( auto& p : ps ) switch ( p.kind ) {
	case 0: s += p.c; break;
	case 1: s += g.byte( cs, false ); break;
	case 2: s += g.str( 12, cs, g.chance( 1, 6 ), ";|," ); break;
	default: { char c = 'a'; for ( int k = 0; k < 8; ++k ) { c = g.byte( "abcABC019_zZ5-./*?", false ); if ( one( p, c ) ) break; } s += c; }
	}
	if ( g.chance( 2, 5 ) ) {
		Seq m( g, 3, 1 );
		while ( m.more() ) {
			size_t at = g.below( s.size() + 1 );
			switch ( g.below( 4 ) ) { case 0: if ( at < s.size() ) s[ at ] = g.byte( cs, false ); break; case 1: s.insert( at, 1, g.byte( cs, false ) ); break; case 2: if ( at < s.size() ) s.erase( at, 1 ); break; default: s.resize( at ); }
		}
	}
	return s;
}
static bool has_wild( const vector< Piece >& p ) { for ( auto& x : p ) if ( x.kind ) return true; return false; }

LAW( match_model, 500000 )
{
	auto ps = gen_pattern( g ); string pat = render( ps ), s = gen_subject( g, ps );
	bool want = match( ps, s );
	g.note( "pattern", pat ).note( "subject", s ).note( "matches", want ); g.nontrivial( has_wild( ps ) && !s.empty() ); g.label( want ? "match" : "no-match" );
	CHECK_EQ( flut::pattern_match( s, pat ), want );
	// the same pattern on subjects that differ in one place, then on the first again
	for ( int k = 0; k < 3 && !s.empty(); ++k ) { string o = s; size_t at = g.below( o.size() ); if ( g.chance( 3, 4 ) ) o[ at ] = g.byte( chars, false ); else o.erase( at, 1 ); bool w = match( ps, o ); g.note( "other", o ); CHECK_EQ( flut::pattern_match( o, pat ), w ); }
	CHECK_EQ( flut::pattern_match( s, pat ), want );
}

LAW( matcher_any_of, 200000 )
{
	const char* cs = "abcAB01._-/ ";
	vector< vector< Piece > > alts; Seq q( g, 6 ); while ( q.more() ) alts.push_back( gen_pattern( g, 6, 1, cs, g.chance( 1, 4 ) ) );
	char del = g.pick( { ';', '|', ',' } );
	string joined; for ( auto& a : alts ) { if ( !joined.empty() || g.chance( 1, 6 ) ) joined += del; if ( g.chance( 1, 8 ) ) joined += del; joined += render( a ); }
	if ( g.chance( 1, 6 ) ) joined += del;
	vector< string > subj; Seq t( g, 8, 1 ); while ( t.more() ) subj.push_back( alts.empty() ? g.str( 5, cs ) : gen_subject( g, alts[ g.below( alts.size() ) ], cs ) );
	g.note( "patterns", joined ).note( "subjects", subj ); g.nontrivial( alts.size() > 1 && subj.size() > 1 );
	string d( 1, del );
	vector< flut::pattern_matcher > ms;
	ms.emplace_back( joined, d.c_str() ); ms.emplace_back( joined.c_str(), d.c_str() );
	if ( del == ';' ) { ms.emplace_back( joined ); flut::prop_node pn; pn.set_value( joined ); ms.emplace_back( pn ); ms.push_back( pn.get< flut::pattern_matcher >() ); }
	for ( auto& m : ms ) {
		size_t first = subj.size();
		for ( size_t i = 0; i < subj.size(); ++i ) {
			bool want = false; for ( auto& a : alts ) want = want || match( a, subj[ i ] );
			if ( want && first == subj.size() ) first = i;
			CHECK_MSG( m( subj[ i ] ) == want, "subject " + pbt::show( subj[ i ] ) );
			CHECK_EQ( m( &subj[ i ] ), want );
		}
		CHECK_EQ( size_t( m.find_match( subj.begin(), subj.end() ) - subj.begin() ), first );
	}
	flut::pattern_matcher none; CHECK( !none( subj[ 0 ] ) );
}

LAW( select_children, 150000 )
{
	flut::prop_node pn; vector< std::pair< string, int > > all;
	vector< Piece > ps = gen_pattern( g, 6 ); string pat = render( ps ); vector< string > keys = { "a", "ab", "item0", "x" };
	Seq q( g, 20 ); int n = 0;
	while ( q.more() ) { string k = g.coin() ? g.pick( keys ) : gen_subject( g, ps ); all.push_back( { k, n } ); pn.push_back( k, n ); ++n; }
	string key = all.empty() || g.chance( 1, 5 ) ? string( "a" ) : all[ g.below( all.size() ) ].first;
	g.note( "pattern", pat ).note( "key", key ).note( "children", all.size() ); g.nontrivial( all.size() > 1 );
	vector< int > w1, w2, g1, g2;
	for ( auto& a : all ) { if ( match( ps, a.first ) ) w1.push_back( a.second ); if ( a.first == key ) w2.push_back( a.second ); }
	const flut::prop_node& c = pn;
	for ( auto& kv : c.select_pattern( pat ) ) g1.push_back( kv.second.get< int >() );
	for ( auto& kv : c.select( key ) ) g2.push_back( kv.second.get< int >() );
	g.label( "some-not-all", !w1.empty() && w1.size() < all.size() );
	CHECK_EQ( g1, w1 ); CHECK_EQ( g2, w2 );
}

// in every thread, whatever the others match at the same time
LAW( in_threads, 300 )
{
	const int n = 2 + (int)g.below( 3 ); vector< vector< std::pair< string, bool > > > w( n ); vector< string > pat( n ); g.nontrivial( true );
	for ( int t = 0; t < n; ++t ) { auto ps = gen_pattern( g, 8, 1 ); pat[ t ] = render( ps ); g.note( "pattern", pat[ t ] ); for ( int k = 0; k < 6; ++k ) { string s = gen_subject( g, ps ); w[ t ].push_back( { s, match( ps, s ) } ); } }
	CHECK_EQ( wrong_in_threads( n, 200, [&]( int t, int k ) { auto& c = w[ t ][ k % 6 ]; return flut::pattern_match( c.first, pat[ t ] ) == c.second; } ), 0 );
}
