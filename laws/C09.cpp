#include "common.hpp"
#include "proptree.hpp"
#include "flut/system/log_sink.hpp"
PROPERTY( "C09", "trees of up to 60 nodes with distinct keys, followed by up to 30 reads of random nodes by key, index, path, typed access or a held reference, and clears of random subtrees. Non-trivial: some but not all nodes were read." )
using std::string; using std::vector; using flut::prop_node;

struct M { string key, value; bool touched = false; vector< M > kids; };
static M build( Gen& g, prop_node& pn, size_t& budget, int depth, const string& key ) {
	M m; m.key = key;
	Seq s( g, 6 ); int n = 0; if ( key.empty() && g.chance( 1, 40 ) ) for ( size_t more = g.size( 200 ); more > 0; --more ) { string k = "k" + std::to_string( n++ ); size_t few = 2; prop_node& c = pn.push_back( k ); m.kids.push_back( build( g, c, few, more % 9 == 0, k ) ); }
	while ( depth > 0 && budget > 0 && s.more() ) {
		--budget; string k = "k" + std::to_string( n++ ); prop_node& c = pn.push_back( k ); m.kids.push_back( build( g, c, budget, depth - 1, k ) );
	}
	if ( m.kids.empty() || g.chance( 1, 3 ) ) { m.value = g.chance( 1, 6 ) ? string() : std::to_string( g.i( -9, 99 ) ); pn.set_value( m.value ); }
	return m;
}
static size_t untouched( const M& m ) { size_t n = m.touched ? 0 : 1; for ( auto& k : m.kids ) n += untouched( k ); return n; }
static size_t total( const M& m ) { size_t n = 1; for ( auto& k : m.kids ) n += total( k ); return n; }
static void touch_all( M& m, bool v ) { m.touched = v; for ( auto& k : m.kids ) touch_all( k, v ); }
static prop_node& pn_at( prop_node& root, const vector< M* >& way ) { prop_node* p = &root; for ( size_t i = 1; i < way.size(); ++i ) { size_t j = way[ i ] - &way[ i - 1 ]->kids[ 0 ]; p = &( p->end() - ( p->size() - j ) )->second; } return *p; }
struct collect : flut::log::sink { collect() : sink( flut::log::trace_level ) {} vector< string > msgs; vector< int > levels; void send_log_message( flut::log::level l, const string& s ) override { msgs.push_back( s ); levels.push_back( (int)l ); } };

static void same_flags( const prop_node& p, const M& m ) { CHECK_EQ( p.is_accessed(), m.touched ); size_t i = 0; CHECK_EQ( p.size(), m.kids.size() ); for ( auto it = p.cbegin(); it != p.cend(); ++it, ++i ) same_flags( it->second, m.kids[ i ] ); } // visiting a node's children marks only that node

LAW( reads_are_tracked, 100000 )
{
	prop_node pn; size_t budget = 60; M m = build( g, pn, budget, 5, "" );
	pn.clear_accessed_recursively(); touch_all( m, false );
	CHECK_EQ( pn.count_unaccessed(), total( m ) );
	size_t all = total( m ), reads = 0; string log; const prop_node fallback( string( "f" ) );
	Seq s( g, 30 );
	while ( s.more() ) {
		if ( g.chance( 1, 4 ) ) { // a node that is held by reference: its own reads mark only itself, clearing it clears it and all below
			M* x = &m; vector< M* > way = { &m }; while ( !x->kids.empty() && g.chance( 2, 3 ) ) { x = &x->kids[ g.below( x->kids.size() ) ]; way.push_back( x ); }
			prop_node& q = pn_at( pn, way ); bool clear = g.chance( 1, 3 ); if ( g.noting ) log += string( clear ? "clear " : "hold " ) + ( x->key.empty() ? "root" : x->key ) + "@" + std::to_string( way.size() - 1 ) + ";";
			if ( clear ) { q.clear_accessed_recursively(); touch_all( *x, false ); } else { CHECK_EQ( q.get_value(), x->value ); x->touched = true; ++reads; }
			CHECK_EQ( q.count_unaccessed(), untouched( *x ) ); continue;
		}
		// reading a node marks the nodes on the way to it and itself as read, nothing else
		prop_node* p = &pn; M* x = &m; vector< M* > way = { &m }; bool done = false;
		while ( !x->kids.empty() && !done && g.chance( 3, 4 ) ) {
			size_t i = g.below( x->kids.size() ), how = g.below( 17 ); string k = x->kids[ i ].key; prop_node& q = *p; const prop_node& c = q; const prop_node* n = nullptr;
			if ( g.noting ) log += "/" + k + ":" + std::to_string( how );
			switch ( how ) {
			case 0: n = &c.get_child( k ); break; case 1: n = &c.get_child( i ); break; case 2: n = &c[ k ]; break; case 3: n = c.try_get_child( k ); break;
			case 4: n = &q.get_child( k ); break; case 5: n = &q.get_child( i ); break; case 6: n = &q[ k ]; break; case 7: n = q.try_get_child( k ); break;
			case 8: n = &c.try_get_child( k, fallback ); break; case 9: n = &q.get_or_add_child( k ); break; case 10: n = &( c.begin() + i )->second; break; case 11: n = &c.find( k )->second; break; case 12: n = &c[ (flut::index_t)i ]; break;
			case 13: CHECK_EQ( c.get< string >( k ), x->kids[ i ].value ); done = true; break;
			case 14: CHECK_EQ( c.get< string >( k, "default" ), x->kids[ i ].value ); done = true; break;
			case 15: CHECK_EQ( c.get_any< string >( { "absent", k, "none" }, "default" ), x->kids[ i ].value ); done = true; break;
			default: CHECK_EQ( c.get_any< string >( { k, "absent" } ), x->kids[ i ].value ); done = true;
			}
			x = &x->kids[ i ]; way.push_back( x );
			if ( !done && g.chance( 1, 6 ) ) { // only look the child up: try_get_child, get_or_add_child and writable operator[] read it, the others only its parent
				bool reads_child = how == 3 || ( how >= 6 && how <= 9 ); CHECK_EQ( n->is_accessed(), reads_child || x->touched ); if ( !reads_child ) way.pop_back(); p = nullptr; break;
			}
			if ( done ) n = &( pn_at( pn, way ) ); // without marking anything
			CHECK( n != nullptr && n != &fallback ); p = const_cast< prop_node* >( n );
		}
		if ( p ) { const prop_node& c = *p;
		if ( !done ) switch ( g.below( 11 ) ) { // also a failed look-up is a read of the node itself
		case 0: CHECK_EQ( c.get_value(), x->value ); break; case 1: CHECK_EQ( c.get< string >(), x->value ); break; case 2: CHECK( c.try_get_child( "absent" ) == nullptr ); break;
		case 3: CHECK( &c.try_get_child( "absent", fallback ) == &fallback ); CHECK( !fallback.is_accessed() ); break;
		case 4: CHECK_EQ( c.get< string >( "absent", "d" ), string( "d" ) ); break; case 5: CHECK_EQ( c.get_any< int >( { "absent", "none" }, 5 ), 5 ); break;
		case 6: CHECK( !c.has_key( "absent" ) ); break; case 7: for ( auto it = c.begin(); it != c.end(); ++it ) {} break; case 8: CHECK( p->try_get_child( "absent" ) == nullptr ); break;
		case 9: if ( x->kids.empty() ) c.get_value(); else CHECK_EQ( c.get_key( x->kids.size() - 1 ), x->kids.back().key ); break;
		default: if ( x->value.empty() ) c.get_value(); else CHECK_EQ( c.get< int >(), std::stoi( x->value ) );
		} }
		for ( auto* w : way ) w->touched = true;
		if ( g.noting ) log += ";";
		++reads;
		if ( p ) CHECK_EQ( p->is_accessed(), true );
	}
	size_t want = untouched( m );
	g.note( "reads", log ).note( "nodes", all ).note( "unread", want ); g.nontrivial( want > 0 && want < all );
	CHECK_EQ( pn.count_unaccessed(), want );
	// a copy starts out unread in full and does not share its state
	prop_node c( pn ); CHECK_EQ( c.count_unaccessed(), all );
	{ // so does every new node, however it is made
		string sv = g.str( 5, "ab" ); CHECK( !prop_node().is_accessed() && !prop_node( sv ).is_accessed() && !prop_node( string( sv ) ).is_accessed() && !prop_node( sv.c_str() ).is_accessed() && !prop_node( &pn ).is_accessed() && !prop_node( (const prop_node*)nullptr ).is_accessed() ); CHECK_EQ( prop_node( &pn ).count_unaccessed(), all ); prop_node t( c ); prop_node u( std::move( t ) ); CHECK_EQ( u.count_unaccessed(), all ); u.push_back( "new", 1 ); u.push_back( "new", sv ); CHECK_EQ( prop_node( u ).count_unaccessed(), all + 2 ); CHECK_EQ( u.count_unaccessed(), all + 2 );
	}
	c.get_value(); CHECK_EQ( c.count_unaccessed(), all - 1 ); CHECK_EQ( pn.count_unaccessed(), want );
	same_flags( pn, m );
	pn.clear_accessed_recursively(); CHECK_EQ( pn.count_unaccessed(), all );
}

LAW( delimited_and_typed, 60000 )
{
	prop_node pn; size_t budget = 40; M m = build( g, pn, budget, 5, "" ); pn.clear_accessed_recursively(); touch_all( m, false );
	Seq s( g, 10, 1 );
	while ( s.more() ) {
		M* x = &m; vector< M* > way = { &m }; string path;
		while ( !x->kids.empty() && ( path.empty() || g.chance( 3, 4 ) ) ) { size_t i = g.below( x->kids.size() ); if ( !path.empty() ) path += "."; path += x->kids[ i ].key; x = &x->kids[ i ]; way.push_back( x ); }
		if ( path.empty() ) break;
		const prop_node& c = pn;
		if ( g.coin() ) { CHECK_EQ( c.get_delimited< string >( path ), x->value ); } else { auto* p = c.try_get_child_delimited( path ); CHECK( p && p->is_accessed() ); }
		for ( auto* w : way ) w->touched = true;
	}
	size_t want = untouched( m ); g.note( "nodes", total( m ) ).note( "unread", want ); g.nontrivial( want > 0 && want < total( m ) );
	CHECK_EQ( pn.count_unaccessed(), want );
}

static void expect_log( const M& m, int depth, vector< string >& out ) {
	for ( auto& k : m.kids ) {
		if ( untouched( k ) > 0 ) { string s = string( depth * 2, ' ' ) + k.key; if ( !k.touched ) { if ( !k.value.empty() ) s += " = " + k.value; s += " *"; } out.push_back( s ); }
		expect_log( k, depth + 1, out );
	}
}
LAW( report_of_unread, 40000 )
{
	// the report names every subtree with unread nodes once, parents first, marking the unread ones
	prop_node pn; size_t budget = 40; M m = build( g, pn, budget, 5, "" ); pn.clear_accessed_recursively(); touch_all( m, false );
	Seq s( g, 15 );
	while ( s.more() ) {
		M* x = &m; vector< M* > way = { &m }; const prop_node* p = &pn;
		while ( !x->kids.empty() && g.chance( 4, 5 ) ) { size_t i = g.below( x->kids.size() ); p = &p->get_child( i ); x = &x->kids[ i ]; way.push_back( x ); }
		p->get_value(); for ( auto* w : way ) w->touched = true;
	}
	vector< string > want; expect_log( m, 0, want ); g.note( "report", want ); g.nontrivial( !want.empty() && want.size() < total( m ) - 1 );
	static collect* c = new collect; c->msgs.clear(); c->levels.clear();
	auto l = flut::log::level( 1 + (int)g.below( 6 ) ); if ( l == flut::log::warning_level ) flut::log_unaccessed( pn ); else flut::log_unaccessed( pn, l );
	CHECK_EQ( c->msgs, want ); for ( int x : c->levels ) CHECK_EQ( x, (int)l );
}
