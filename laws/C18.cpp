#include "common.hpp"
#include "flut/table.hpp"
PROPERTY( "C18", "histories of up to 40 operations on a label header and on a table (rows and columns added in any interleaving with defaults, writes by index and by label, growth); some start with up to 300 labels or 90 rows and columns. Non-trivial: at least two rows and two columns, or three labels." )
using std::string; using std::vector; using flut::data_header; using flut::table; using flut::no_index;
static const vector< string > pool = { "a", "b", "c", "d", "r 1", "x.y", "Row", "long_label_0123456789_0123456789" };
static string label( Gen& g ) { if ( g.chance( 2, 5 ) ) return "n" + std::to_string( g.below( g.chance( 1, 4 ) ? 400 : 60 ) ); if ( g.chance( 1, 4 ) ) { string s = g.str( 12, "abR .", true ); return s.empty() ? "e" : s; } return g.pick( pool ); }
static size_t find( const vector< string >& v, const string& l ) { for ( size_t i = 0; i < v.size(); ++i ) if ( v[ i ] == l && !l.empty() ) return i; return no_index; }
static void same( const data_header< string >& h, const vector< string >& m ) {
	CHECK_EQ( h.size(), m.size() ); CHECK_EQ( vector< string >( h.begin(), h.end() ), m );
	for ( size_t i = 0; i < m.size(); ++i ) CHECK_EQ( h[ i ], m[ i ] );
	for ( auto& l : pool ) CHECK_EQ( h.find( l ), find( m, l ) ); for ( auto& l : m ) if ( !l.empty() ) CHECK_EQ( h.find( l ), find( m, l ) );
}

LAW( header, 150000 )
{
	vector< string > m; { Seq s( g, 4 ); while ( s.more() ) { string l = g.pick( pool ); if ( find( m, l ) == no_index ) m.push_back( l ); } }
	data_header< string > h( m ); if ( m.size() == 2 && g.coin() ) h = data_header< string >( { m[ 0 ], m[ 1 ] } ); if ( g.chance( 1, 5 ) ) { size_t n = g.size( 4 ); m.assign( n, "" ); h = data_header< string >( n ); }
	Seq s( g, 40 ); string log; bool big = g.chance( 1, 25 ); if ( big ) { size_t n = g.size( 300 ); log = " many(" + std::to_string( n ) + ")"; for ( size_t i = 0; i < n; ++i ) { string l = "n" + std::to_string( i ); if ( find( m, l ) == no_index ) { CHECK_EQ( h.add( l ), m.size() ); m.push_back( l ); } } }
	while ( s.more() ) {
		string l = label( g ); bool has = find( m, l ) != no_index; size_t op = g.weighted( { 6, 6, 2, 1 } ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + l;
		switch ( op ) {
		case 0: if ( has ) CHECK_THROWS( h.add( l ) ); else { CHECK_EQ( h.add( l ), m.size() ); m.push_back( l ); } break;
		case 1: { size_t i = g.size( m.size() + 1 ); if ( has || i >= m.size() ) CHECK_THROWS( h.set( i, l ) ); else { CHECK_EQ( h.set( i, l ), i ); m[ i ] = l; } break; } // relabelling frees the old label
		case 2: { size_t n = g.size( m.size() + 3 ); if ( n < m.size() ) CHECK_THROWS( h.resize( n ) ); else { h.resize( n ); m.resize( n ); } break; }
		default: h.clear(); m.clear();
		}
		if ( !big ) same( h, m ); else CHECK_EQ( h.find( l ), find( m, l ) );
	}
	same( h, m );
	g.note( "ops", log ).note( "labels", m ); g.nontrivial( m.size() > 2 ); data_header< string > c( h ); same( c, m );
	size_t n = g.size( 5 ); data_header< void > v( n ); CHECK_EQ( v.size(), n ); CHECK_EQ( v.add(), n ); CHECK_EQ( v.size(), n + 1 ); CHECK_EQ( v.get_label( n ), n );
}

struct Model { vector< string > rows, cols; vector< vector< int > > v; // v[ r ][ c ]
	size_t add_row( const string& l, int d ) { rows.push_back( l ); v.push_back( vector< int >( cols.size(), d ) ); return rows.size() - 1; }
	size_t add_col( const string& l, int d ) { cols.push_back( l ); for ( auto& r : v ) r.push_back( d ); return cols.size() - 1; } };
static void same( const table< int >& t, const Model& m ) {
	CHECK_EQ( t.row_size(), m.rows.size() ); CHECK_EQ( t.column_size(), m.cols.size() ); same( t.row_labels(), m.rows ); same( t.col_labels(), m.cols );
	for ( size_t r = 0; r < m.rows.size(); ++r ) for ( size_t c = 0; c < m.cols.size(); ++c ) { CHECK_EQ( t( r, c ), m.v[ r ][ c ] ); if ( !m.rows[ r ].empty() && !m.cols[ c ].empty() ) CHECK_EQ( t( m.rows[ r ], m.cols[ c ] ), m.v[ r ][ c ] ); }
	auto& w = const_cast< table< int >& >( t ); for ( size_t r : { m.rows.size(), m.rows.size() + 1, (size_t)no_index } ) { CHECK_THROWS( t( r, 0 ) ); CHECK_THROWS( w( r, 0 ) ); } for ( size_t c : { m.cols.size(), m.cols.size() + 1, (size_t)no_index } ) { CHECK_THROWS( t( 0, c ) ); CHECK_THROWS( w( 0, c ) ); } // on both sides
	 CHECK_THROWS( t( string( "absent" ), string( "absent" ) ) );
}
LAW( table_history, 120000 )
{
	size_t r0 = g.chance( 1, 4 ) ? g.size( 3 ) : 0, c0 = g.chance( 1, 4 ) ? g.size( 3 ) : 0; table< int > t( r0, c0 ); if ( r0 + c0 == 0 && g.coin() ) t = table< int >(); else if ( c0 == 0 && g.coin() ) t = table< int >( r0 ); Model m; m.rows.assign( r0, "" ); m.cols.assign( c0, "" ); m.v.assign( r0, vector< int >( c0, 0 ) );
	Seq s( g, 40 ); string log; int next = 100; bool big = g.chance( 1, 40 );
	if ( big ) { size_t nr = g.size( 90 ), nc = g.size( 90 ); log = " many(" + std::to_string( nr ) + "," + std::to_string( nc ) + ")"; for ( size_t i = 0; i < std::max( nr, nc ); ++i ) { string l = "n" + std::to_string( i ); if ( i < nr ) { CHECK_EQ( t.add_row( l, next ), m.add_row( l, next ) ); ++next; } if ( i < nc ) { CHECK_EQ( t.add_column( l, next ), m.add_col( l, next ) ); ++next; } } }
	while ( s.more() ) {
		string a = label( g ), b = label( g ); size_t ra = find( m.rows, a ), cb = find( m.cols, b ); int d = g.coin() ? next++ : 0; size_t op = g.weighted( { 4, 4, 2, 2, 6, 4, 2, 2 } ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + a + "," + b;
		switch ( op ) {
		case 7: if ( !m.rows.empty() && !m.cols.empty() ) { // the default is a cell of the table itself
			size_t r = g.below( m.rows.size() ), c = g.below( m.cols.size() ); int v = m.v[ r ][ c ];
			switch ( g.below( 3 ) ) { case 0: if ( ra == no_index ) { t.add_row( a, t( r, c ) ); m.add_row( a, v ); } break; case 1: if ( cb == no_index ) { t.add_column( b, t( r, c ) ); m.add_col( b, v ); } break;
			default: { size_t nr = m.rows.size() + g.size( 2 ), nc = m.cols.size() + g.size( 2 ); t.resize( nr, nc, t( r, c ) ); m.cols.resize( nc ); for ( auto& x : m.v ) x.resize( nc, v ); m.v.resize( nr, vector< int >( nc, v ) ); m.rows.resize( nr ); } } }
			break;
		case 0: if ( ra == no_index && d == 0 && g.coin() ) CHECK_EQ( t.add_row( a ), m.add_row( a, 0 ) ); else if ( ra == no_index ) CHECK_EQ( t.add_row( a, d ), m.add_row( a, d ) ); else CHECK_THROWS( t.add_row( a, d ) ); /* and the table stays as it was */ break;
		case 1: if ( cb == no_index && d == 0 && g.coin() ) CHECK_EQ( t.add_column( b ), m.add_col( b, 0 ) ); else if ( cb == no_index ) CHECK_EQ( t.add_column( b, d ), m.add_col( b, d ) ); else CHECK_THROWS( t.add_column( b, d ) ); break;
		case 2: CHECK_EQ( t.get_or_add_row( a, d ), ra == no_index ? m.add_row( a, d ) : ra ); break;
		case 3: CHECK_EQ( t.get_or_add_column( b, d ), cb == no_index ? m.add_col( b, d ) : cb ); break;
		case 4: t( a, b ) = next; if ( ra == no_index ) ra = m.add_row( a, 0 ); if ( cb == no_index ) cb = m.add_col( b, 0 ); m.v[ ra ][ cb ] = next++; break;
		case 5: if ( !m.rows.empty() && !m.cols.empty() ) { size_t r = g.below( m.rows.size() ), c = g.below( m.cols.size() ); t( r, c ) = next; m.v[ r ][ c ] = next++; } break;
		default: { size_t nr = m.rows.size() + g.size( 2 ), nc = m.cols.size() + g.size( 2 ); if ( !m.rows.empty() && g.chance( 1, 5 ) ) { CHECK_THROWS( t.resize( m.rows.size() - 1, nc ) ); break; } if ( !m.cols.empty() && g.chance( 1, 5 ) ) { CHECK_THROWS( t.resize( nr, m.cols.size() - 1 ) ); break; } if ( d == 0 && g.coin() ) t.resize( nr, nc ); else t.resize( nr, nc, d ); m.cols.resize( nc ); for ( auto& r : m.v ) r.resize( nc, d ); m.v.resize( nr, vector< int >( nc, d ) ); m.rows.resize( nr ); }
		}
		if ( !big && ( m.rows.size() > 30 || m.cols.size() > 30 ) ) break;
	}
	g.note( "ops", log ).note( "rows", m.rows ).note( "columns", m.cols ); g.nontrivial( m.rows.size() > 1 && m.cols.size() > 1 );
	same( t, m ); table< int > c( t ); same( c, m );
	std::ostringstream o, w; o << t; w << "Row"; for ( auto& l : m.cols ) w << "\t" << l; w << "\n"; for ( size_t r = 0; r < m.rows.size(); ++r ) { w << m.rows[ r ]; for ( int x : m.v[ r ] ) w << "\t" << x; w << "\n"; } CHECK_EQ( o.str(), w.str() );
}
