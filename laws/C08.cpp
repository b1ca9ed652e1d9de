#include "common.hpp"
#include "proptree.hpp"
PROPERTY( "C08", "histories of up to 60 operations (push_back, set, set_delimited, operator[], get_or_add_child, erase, insert, clear, assign, copy, move) on a prop_node tree, with keys from a small pool so that duplicates and hits are frequent. Non-trivial: at least 5 operations that change the tree." )
using std::string; using std::vector; using flut::prop_node;
static const vector< string > pool = { "a", "b", "c", "ab", "A", "", "item0", "long_key_name_0123456789_0123456789" };

static string key( Gen& g ) { return g.chance( 1, 5 ) ? g.str( 6, "abcxyz", true ) : g.pick( pool ); }
static string text( Gen& g ) { return g.chance( 1, 3 ) ? std::to_string( g.i( -99, 99 ) ) : g.str( 40, "ab .1\"", true ); }
static bool same_lookup( const prop_node& pn, const Tree& t ) { // observers agree with the model at every node
	if ( pn.size() != t.kids.size() || pn.get_value() != t.value ) return false;
	if ( pn.has_value() != !t.value.empty() || pn.empty() != ( t.value.empty() && t.kids.empty() ) ) return false;
	vector< string > keys( pool ); for ( auto& k : t.kids ) keys.push_back( k.first );
	for ( auto& k : keys ) {
		const Tree* m = t.find( k ); const prop_node* c = pn.try_get_child( k );
		if ( ( m != nullptr ) != ( c != nullptr ) || pn.has_key( k ) != ( m != nullptr ) ) return false;
		if ( pn.has_value( k ) != ( m && !m->value.empty() ) ) return false;
		if ( m && ( pn.get_child( k ).get_value() != m->value || c->size() != m->kids.size() || &pn[ k ] != c || pn.get< string >( k ) != m->value ) ) return false;
		if ( !m && !pbt::throws( [&]() { pn.get_child( k ); } ) ) return false;
		if ( !m && &k == &keys[ t.kids.size() % pool.size() ] && ( !pbt::throws( [&]() { const_cast< prop_node& >( pn ).get_child( k ); } ) || !pbt::throws( [&]() { pn[ k ]; } ) || !pbt::throws( [&]() { pn.get_any< string >( { k } ); } ) || !pbt::throws( [&]() { pn.get< string >( k ); } ) ) ) return false;
		if ( ( pn.find( k ) != pn.end() ) != ( m != nullptr ) || ( m && &pn.find( k )->second != c ) ) return false;
		if ( pn.get< string >( k, "dflt" ) != ( m ? m->value : string( "dflt" ) ) ) return false;
		prop_node def; if ( &pn.try_get_child( k, def ) != ( m ? c : &def ) ) return false;
	}
	for ( size_t i = 0; i < t.kids.size(); ++i ) {
		if ( pn.get_key( i ) != t.kids[ i ].first || pn.get_child( i ).get_value() != t.kids[ i ].second.value || &pn[ i ] != &pn.get_child( i ) ) return false;
		if ( !same_lookup( pn.get_child( i ), t.kids[ i ].second ) ) return false;
	}
	auto& w = const_cast< prop_node& >( pn ); if ( !pbt::throws( [&]() { w.get_child( t.kids.size() ); } ) || !pbt::throws( [&]() { w[ t.kids.size() + 1 ]; } ) || !pbt::throws( [&]() { pn[ t.kids.size() ]; } ) ) return false;
	if ( !pbt::throws( [&]() { pn.get_child( t.kids.size() ); } ) || !pbt::throws( [&]() { pn.get_key( t.kids.size() ); } ) ) return false;
	return true;
}

LAW( history, 60000 )
{
	prop_node pn; Tree t; bool many = g.chance( 1, 60 ); Seq s( g, many ? 400 : 60 ); string log; int changes = 0; size_t bulk = many && g.coin() ? g.size( 300 ) : 0;
	for ( size_t i = 0; i < bulk; ++i ) { string k = "w" + std::to_string( i ); pn.push_back( k, i ); Tree n; n.value = std::to_string( i ); t.kids.push_back( { k, n } ); } g.note( "bulk", bulk );
	while ( s.more() ) {
		// walk to a random node
		prop_node* p = &pn; Tree* m = &t;
		for ( int d = 0; d < 4 && !m->kids.empty() && g.chance( 2, 5 ); ++d ) { size_t i = g.below( m->kids.size() ); p = &p->get_child( i ); m = &m->kids[ i ].second; }
		string k = bulk && g.chance( 1, 3 ) ? "w" + std::to_string( g.below( bulk + 2 ) ) : key( g ), sv = text( g ); const string& v = sv;
		size_t op = g.weighted( { 6, 5, 3, 3, 2, 2, 2, 1, 1, 1, 2, 1, 1, 2, 2, 1, 2 } );
		if ( g.noting ) log += " " + std::to_string( op ) + ":" + k + "=" + sv;
		if ( many && op != 16 && op != 3 && g.chance( 1, 2 ) ) { op = 0; p = &pn; m = &t; } // wide trees
		switch ( op ) {
		case 0: { Tree n; n.value = sv; const string& ak = !m->kids.empty() && g.chance( 1, 4 ) ? p->get_key( g.below( m->kids.size() ) ) : k; const string mk = ak; /* the key can be one of the node's own */ prop_node& r = p->push_back( ak, v ); CHECK( &r == &p->get_child( m->kids.size() ) ); m->kids.push_back( { mk, n } ); break; }
		case 1: { prop_node& r = p->set( k, v ); CHECK( &r == p ); Tree n; n.value = sv; if ( auto* x = m->find( k ) ) *x = n; else m->kids.push_back( { k, n } ); break; }
		case 2: { string path; Tree* x = m; vector< string > parts; Seq q( g, 4, 1 ); while ( q.more() ) parts.push_back( g.chance( 1, 4 ) ? g.ident( 4 ) : g.pick( pool ) );
			char del = g.pick( { '.', '/', ':' } );
			for ( size_t i = 0; i < parts.size(); ++i ) { if ( i ) path += del; path += parts[ i ]; }
			if ( del == '.' ) p->set_delimited( path, v ); else p->set_delimited( path, v, del );
			for ( size_t i = 0; i < parts.size(); ++i ) { Tree* c = x->find( parts[ i ] ); if ( !c ) { x->kids.push_back( { parts[ i ], Tree() } ); c = &x->kids.back().second; } x = c; }
			*x = Tree(); x->value = sv;
			CHECK_EQ( del == '.' ? p->get_delimited< string >( path ) : p->get_delimited< string >( path, del ), v );
			const prop_node* c = del == '.' ? p->try_get_child_delimited( path ) : p->try_get_child_delimited( path, del );
			CHECK( c && c->get< string >() == v );
			CHECK( p->try_get_child_delimited( path + del + "nope" ) == nullptr );
			break; }
		case 3: { ( *p )[ k ].set_value( v ); Tree* x = m->find( k ); if ( !x ) { m->kids.push_back( { k, Tree() } ); x = &m->kids.back().second; } x->value = sv; break; }
		case 4: { p->get_or_add_child( k ); if ( !m->find( k ) ) m->kids.push_back( { k, Tree() } ); break; }
		case 5: if ( !m->kids.empty() ) { size_t i = g.below( m->kids.size() ); p->erase( p->begin() + i ); m->kids.erase( m->kids.begin() + i ); } break;
		case 6: { Tree src; Seq q( g, 3 ); while ( q.more() ) { Tree n; n.value = text( g ); src.kids.push_back( { key( g ), n } ); }
			prop_node sp = to_prop( src ); size_t i = g.below( m->kids.size() + 1 );
			const prop_node& csp = sp; if ( g.coin() ) { auto at = p->insert( p->begin() + i, csp.begin(), csp.end() ); CHECK( at == p->begin() + i ); } else p->insert( p->cbegin() + i, csp.begin(), csp.end() ); m->kids.insert( m->kids.begin() + i, src.kids.begin(), src.kids.end() ); break; }
		case 7: p->clear(); *m = Tree(); break;
		case 8: { prop_node c( *p ); Tree mc = *m; CHECK_TREE( from_prop( c ), mc ); CHECK( c == *p ); c.push_back( "copy", 1 ); CHECK_TREE( from_prop( *p ), mc ); CHECK( c != *p ); break; } // copies are independent
		case 9: { prop_node c( *p ); prop_node d( std::move( c ) ); CHECK_TREE( from_prop( d ), *m ); prop_node e; e.push_back( "old", 1 ); e = std::move( d ); CHECK_TREE( from_prop( e ), *m ); *p = e; CHECK_TREE( from_prop( *p ), *m ); break; }
		case 10: p->set_value( v ); m->value = sv; break;
		case 11: { Tree mc = *m; if ( g.coin() ) { prop_node c = to_prop( *m ); prop_node& r = p->push_back( k, c ); CHECK( &r == &p->get_child( m->kids.size() ) ); } else p->push_back( k, *p ); m->kids.push_back( { k, mc } ); break; }
		case 16: { // assignment within one tree: to itself, from a descendant, from an ancestor, between siblings
			prop_node* q = p; Tree* n = m; for ( int d = 0; d < 3 && !n->kids.empty() && g.chance( 3, 4 ); ++d ) { size_t i = g.below( n->kids.size() ); q = &q->get_child( i ); n = &n->kids[ i ].second; }
			Tree from = *n, up = *m; if ( m->kids.size() > 12 ) break;
			switch ( g.below( 4 ) ) { case 0: *p = *q; *m = from; break; case 1: *q = *p; *n = up; break; case 2: p->set( k, *q ); if ( auto* x = m->find( k ) ) *x = from; else m->kids.push_back( { k, from } ); break; default: { prop_node c = std::move( *q ); *p = std::move( c ); *m = from; } }
			break; }
		case 13: { size_t b = 6; Tree sub = gen_tree( g, b, 3, 4, key, text, true ); if ( g.coin() ) sub.value = text( g ); prop_node sp = to_prop( sub ); // a whole tree as the new value of a child or of the node
			switch ( g.below( 5 ) ) {
			case 0: p->set( k, sp ); if ( auto* x = m->find( k ) ) *x = sub; else m->kids.push_back( { k, sub } ); break;
			case 1: p->set( sp ); *m = sub; break; case 2: p->set( std::move( sp ) ); *m = sub; break; case 3: *p = sp; *m = sub; break;
			default: { prop_node& r = p->push_back( k, std::move( sp ) ); CHECK( &r == &p->get_child( m->kids.size() ) ); m->kids.push_back( { k, sub } ); } }
			break; }
		case 14: { const string& ak = !m->kids.empty() && g.chance( 1, 4 ) ? p->get_key( g.below( m->kids.size() ) ) : k; const string mk = ak; prop_node& c = p->push_back( ak ); CHECK( c.empty() ); CHECK( &c == &p->get_child( m->kids.size() ) ); c.set_value( string( sv ) ); Tree n; n.value = sv; m->kids.push_back( { mk, n } ); break; }
		case 15: { *p = sv; *m = Tree(); m->value = sv; p->reserve( g.size( 40 ) ); break; }
		default: { prop_node c( p ); CHECK_TREE( from_prop( c ), *m ); prop_node z( (const prop_node*)nullptr ); CHECK( z.empty() ); }
		}
		if ( op != 8 && op != 9 && op != 12 ) ++changes;
		size_t n = t.count(); if ( n > ( many ? 600 : 100 ) ) { pn.clear(); t = Tree(); }
		if ( n < 100 || changes % 16 == 0 ) CHECK_TREE( from_prop( pn ), t );
	}
	g.note( "ops", log ).note( "tree", str_of( t ) ); g.nontrivial( changes >= 5 );
	CHECK( same_lookup( pn, t ) );
	prop_node again = to_prop( t ); CHECK( again == pn ); CHECK( !( again != pn ) );
}

LAW( equality, 150000 )
{
	size_t budget = 40; auto lab = []( Gen& g ) { return g.pick( pool ); }; auto val = []( Gen& g ) { return g.str( 4, "ab" ); };
	Tree a = gen_tree( g, budget, 4, 6, lab, val, true ); a.value = g.str( 2, "ab" ); widen( g, a, 30, 300 ); deepen( g, a, 40, 100 ); Tree b = a;
	if ( g.chance( 3, 4 ) ) { // change one thing somewhere
		Tree* m = &b; while ( !m->kids.empty() && g.chance( 3, 4 ) ) m = &m->kids[ g.below( m->kids.size() ) ].second;
		switch ( g.below( 5 ) ) {
		case 0: m->value += "x"; break;
		case 1: m->kids.push_back( { "z", Tree() } ); break;
		case 2: if ( !m->kids.empty() ) m->kids.erase( m->kids.begin() + g.below( m->kids.size() ) ); break;
		case 3: if ( !m->kids.empty() ) m->kids[ g.below( m->kids.size() ) ].first += "x"; break;
		default: if ( m->kids.size() > 1 ) { size_t i = g.below( m->kids.size() - 1 ); std::swap( m->kids[ i ], m->kids[ i + 1 ] ); }
		}
	}
	g.note( "a", str_of( a ) ).note( "b", str_of( b ) ); g.nontrivial( a.count() > 2 ); g.label( a == b ? "equal" : "different" );
	prop_node pa = to_prop( a ), pb = to_prop( b );
	CHECK_EQ( pa == pb, a == b ); CHECK_EQ( pb == pa, a == b ); CHECK_EQ( pa != pb, a != b );
}
