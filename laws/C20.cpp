#include "common.hpp"
#include "flut/flat_map.hpp"
#include "flut/sorted_vector.hpp"
#include "flut/dynarray.hpp"
#include "flut/container_tools.hpp"
#include "flut/math/irange.hpp"
PROPERTY( "C20", "histories of up to 60 operations on flat_map, sorted_vector and dynarray with keys from a small range; number vectors of up to 200 elements with many ties; one in 40 with up to 500 - 2000 elements to begin with; integer ranges with steps. Non-trivial: at least three elements." )
using std::string; using std::vector;

LAW( flat_map_history, 120000 )
{
	using map = flut::flat_map< string, int >; map f; vector< std::pair< string, int > > m; bool many = g.chance( 1, 3 ); Seq s( g, many ? 150 : 60 ); string log; int next = 1; size_t bulk = g.chance( 1, 40 ) ? g.size( 500 ) : 0; for ( size_t i = 0; i < bulk; ++i ) { string k = "k" + std::to_string( i ); f[ k ] = next; m.push_back( { k, next++ } ); }
	auto pos = [&]( const string& k ) { for ( size_t i = 0; i < m.size(); ++i ) if ( m[ i ].first == k ) return i; return m.size(); };
	while ( s.more() ) {
		string k = many || bulk ? "k" + std::to_string( g.below( 60 + bulk ) ) : g.chance( 1, 6 ) ? g.str( 4, "abAB", true ) : string( g.pick( { "a", "b", "c", "d", "", "ab", "key with a long name 0123456789" } ) ); size_t p = pos( k ); bool has = p < m.size(); size_t op = g.weighted( { 6, 3, 3, 3, 1, 1 } ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + k;
		const map& c = f;
		switch ( op ) {
		case 0: f[ k ] = next; if ( has ) m[ p ].second = next; else m.push_back( { k, next } ); ++next; break;
		case 1: if ( has ) { CHECK_EQ( f.at( k ), m[ p ].second ); CHECK_EQ( c.at( k ), m[ p ].second ); CHECK_EQ( c[ k ], m[ p ].second ); } else { CHECK_THROWS( f.at( k ) ); CHECK_THROWS( c.at( k ) ); CHECK_THROWS( c[ k ] ); } break;
		case 2: CHECK_EQ( f.count( k ), size_t( has ) ); CHECK_EQ( f.has_key( k ), has ); CHECK( ( f.find( k ) != f.end() ) == has ); CHECK( ( c.find( k ) != c.end() ) == has ); if ( has ) { CHECK_EQ( f.find( k )->second, m[ p ].second ); CHECK_EQ( size_t( c.find( k ) - c.begin() ), p ); } break;
		case 3: if ( has ) { f.erase( f.find( k ) ); m.erase( m.begin() + p ); } break;
		case 4: { int v = f[ k ]; if ( !has ) { CHECK_EQ( v, 0 ); m.push_back( { k, 0 } ); } break; }
		default: { map d( f ); d[ "other" ] = 1; for ( auto& kv : d ) kv.second = -9; if ( g.chance( 1, 4 ) ) { f.clear(); m.clear(); } }
		}
		CHECK_EQ( f.size(), m.size() ); CHECK_EQ( f.empty(), m.empty() );
	}
	g.note( "ops", log ).note( "size", m.size() ); g.nontrivial( m.size() > 2 );
	size_t i = 0; for ( auto& kv : f ) { CHECK( i < m.size() ); CHECK_EQ( kv.first, m[ i ].first ); CHECK_EQ( kv.second, m[ i ].second ); ++i; } CHECK_EQ( i, m.size() );
	if ( !m.empty() ) { CHECK_EQ( f.front().first, m.front().first ); CHECK_EQ( f.back().first, m.back().first ); }
}

LAW( flat_map_of_numbers, 60000 )
{
	flut::flat_map< int, string > f; vector< std::pair< int, string > > m; Seq s( g, 200 ); int span = g.pick( { 5, 50, 100000 } ); size_t bulk = g.chance( 1, 40 ) ? g.size( 500 ) : 0; for ( size_t i = 0; i < bulk; ++i ) { int k = int( i ) - 50; f[ k ] = "v"; m.push_back( { k, "v" } ); }
	while ( s.more() ) {
		int k = g.i( -span, span ); size_t p = 0; while ( p < m.size() && m[ p ].first != k ) ++p; bool has = p < m.size(); const auto& c = f;
		switch ( g.weighted( { 6, 2, 2 } ) ) {
		case 0: { string v = std::to_string( g.i( 0, 999 ) ); f[ k ] = v; if ( has ) m[ p ].second = v; else m.push_back( { k, v } ); break; }
		case 1: CHECK_EQ( c.has_key( k ), has ); CHECK_EQ( c.count( k ), size_t( has ) ); if ( has ) { CHECK_EQ( c[ k ], m[ p ].second ); f.at( k ) += "x"; m[ p ].second += "x"; } else CHECK_THROWS( c.at( k ) ); break;
		default: if ( has ) { f.erase( f.find( k ) ); m.erase( m.begin() + p ); } else CHECK( f.find( k ) == f.end() );
		}
		CHECK_EQ( f.size(), m.size() );
	}
	g.note( "size", m.size() ).note( "span", span ); g.nontrivial( m.size() > 2 ); size_t i = 0; for ( auto& kv : f ) { CHECK( i < m.size() ); CHECK_EQ( kv.first, m[ i ].first ); CHECK_EQ( kv.second, m[ i ].second ); ++i; } CHECK_EQ( i, m.size() );
}

LAW( sorted_vector_history, 120000 )
{
	flut::sorted_vector< int > v; vector< int > m; Seq s( g, 80 ); string log; int span = g.pick( { 3, 10, 1000 } ); if ( g.chance( 1, 40 ) ) { size_t n = g.size( 800 ); int a = g.i( 1, 1000 ); if ( g.noting ) log = " many(" + std::to_string( n ) + "," + std::to_string( a ) + ")"; for ( size_t i = 0; i < n; ++i ) { int x = int( ( i * a ) % 2001 ) % ( 2 * span + 1 ) - span; CHECK_EQ( *v.insert( x ), x ); m.insert( std::upper_bound( m.begin(), m.end(), x ), x ); } }
	while ( s.more() ) {
		int x = g.i( -span, span ); size_t op = g.weighted( { 8, 3, 4 } ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + std::to_string( x );
		auto r = std::equal_range( m.begin(), m.end(), x ); bool has = r.first != r.second; const auto& c = v;
		switch ( op ) {
		case 0: { auto it = v.insert( x ); CHECK_EQ( *it, x ); m.insert( r.second, x ); break; }
		case 1: { auto it = v.find( x ); CHECK_EQ( it != v.end(), has ); if ( has ) { v.erase( it ); m.erase( r.first ); } break; }
		default: CHECK_EQ( v.find( x ) != v.end(), has ); CHECK_EQ( c.find( x ) != c.end(), has ); if ( has ) { CHECK_EQ( *v.find( x ), x ); CHECK_EQ( *c.find( x ), x ); }
		}
		CHECK_EQ( v.size(), m.size() );
	}
	g.note( "ops", log ); g.nontrivial( m.size() > 2 ); CHECK_EQ( vector< int >( v.begin(), v.end() ), m ); CHECK_EQ( v.empty(), m.empty() ); if ( !m.empty() ) { CHECK_EQ( v.front(), m.front() ); CHECK_EQ( v.back(), m.back() ); }
	for ( int x = -4; x <= 4; ++x ) CHECK_EQ( v.find( x ) != v.end(), std::binary_search( m.begin(), m.end(), x ) );
	v.clear(); CHECK( v.empty() );
}

template< typename T, typename F > static void dyn( Gen& g, F make ) {
	using D = flut::dynarray< T >; size_t n = g.size( g.chance( 1, 40 ) ? 1000 : 40 ); D a( n, make( 1 ) ); vector< T > m( n, make( 1 ) ); auto same = []( const D& d, const vector< T >& w ) { CHECK_EQ( d.size(), w.size() ); CHECK_EQ( vector< T >( d.begin(), d.end() ), w ); for ( size_t i = 0; i < w.size(); ++i ) { CHECK_EQ( d[ i ], w[ i ] ); CHECK_EQ( d.at( i ), w[ i ] ); } D& wr = const_cast< D& >( d ); for ( size_t i : { w.size(), w.size() + 1, w.size() + 7, size_t( -1 ) } ) { CHECK_THROWS( d.at( i ) ); CHECK_THROWS( wr.at( i ) ); } CHECK( d.data() == d.begin() ); CHECK( wr.data() == wr.begin() ); for ( size_t i = 0; i < w.size(); ++i ) { CHECK( &wr[ i ] == &d[ i ] ); CHECK( &wr.at( i ) == &d[ i ] ); } };
	same( a, m ); int next = 2; D b; vector< T > mb; same( b, mb ); Seq s( g, 20 ); string log;
	while ( s.more() ) {
		size_t op = g.weighted( { 6, 2, 3, 2, 2, 1, 1 } ); if ( g.noting ) log += " " + std::to_string( op );
		switch ( op ) {
		case 0: if ( !m.empty() ) { size_t i = g.below( m.size() ); if ( g.coin() ) a[ i ] = make( next ); else a.at( i ) = make( next ); m[ i ] = make( next++ ); } break;
		case 1: a.assign( make( next ) ); m.assign( m.size(), make( next++ ) ); break;
		case 2: b = a; mb = m; break;
		case 3: { D c( a ); same( c, m ); if ( !m.empty() ) c[ 0 ] = make( -1 ); D d( std::move( c ) ); CHECK_EQ( d.size(), m.size() ); CHECK_EQ( c.size(), size_t( 0 ) ); if ( !m.empty() ) CHECK_EQ( d[ 0 ], make( -1 ) ); break; }
		case 4: a = D( b ); m = mb; break;
		case 5: { size_t k = g.size( 20 ); if ( g.coin() ) { D e( k ); CHECK_EQ( e.size(), k ); for ( auto& x : e ) x = make( next ); a = e; } else a = D( k, make( next ) ); m.assign( k, make( next++ ) ); break; }
		default: a = *&a; CHECK( a.data() == a.begin() ); CHECK( a.cend() - a.cbegin() == (std::ptrdiff_t)m.size() );
		}
		CHECK_EQ( a.size(), m.size() );
	}
	g.note( "size", n ).note( "ops", log ); g.nontrivial( m.size() > 2 ); same( a, m ); same( b, mb );
}
LAW( dynarray_int, 80000 ) { dyn< int >( g, []( int i ) { return i; } ); }
LAW( dynarray_string, 30000 ) { dyn< string >( g, []( int i ) { return "text number " + std::to_string( i ); } ); }

template< typename T > static void algo( Gen& g, double unit ) {
	vector< T > v; int span = g.pick( { 2, 10, 1000 } ); Seq s( g, g.chance( 1, 4 ) ? 200 : 12 ); while ( s.more() ) v.push_back( T( g.i( -span, span ) * unit ) ); if ( g.chance( 1, 4 ) ) for ( T& y : v ) y = T( y * ( sizeof( T ) == 8 ? 1000003 : 1 ) ); if ( g.chance( 1, 60 ) ) { size_t n = g.size( 2000 ); int a = g.i( 1, 1000 ); for ( size_t i = 0; i < n; ++i ) v.push_back( T( ( int( ( i * a ) % 2003 ) % ( 2 * span + 1 ) - span ) * unit ) ); } const vector< T > keep = v; const auto& c = v;
	g.note( "v", v ); g.nontrivial( v.size() > 2 );
	auto idx = flut::sort_indices( v ); CHECK_EQ( idx.size(), v.size() ); vector< bool > seen( v.size() ); for ( auto i : idx ) { CHECK( i < v.size() && !seen[ i ] ); seen[ i ] = true; } for ( size_t i = 1; i < idx.size(); ++i ) CHECK( v[ idx[ i - 1 ] ] <= v[ idx[ i ] ] );
	vector< T > o = v; std::stable_sort( o.begin(), o.end() ); CHECK_EQ( flut::sorted_copy( v ), o );
	if ( v.empty() ) { CHECK_THROWS( flut::median( v ) ); CHECK_THROWS( flut::back_index( v ) ); CHECK( flut::min_element( v ) == v.end() ); CHECK( flut::max_element( c ) == c.end() ); }
	else {
		size_t n = v.size(); CHECK_EQ( flut::median( v ), n % 2 ? o[ n / 2 ] : T( ( o[ n / 2 ] + o[ n / 2 - 1 ] ) / 2 ) ); CHECK_EQ( flut::back_index( v ), n - 1 );
		T sum = 0; for ( T x : v ) sum += x; CHECK_CLOSE( flut::average( v ), sum / T( n ), 1e-12, 1e-12 ); CHECK_CLOSE( flut::average( v.begin(), v.end() ), sum / T( n ), 1e-12, 1e-12 );
		size_t k = 1 + g.below( n ); T top = 0; for ( size_t i = 0; i < k; ++i ) top += o[ i ]; g.note( "count", k ); CHECK_CLOSE( flut::top_average( v, k ), top / T( k ), 1e-12, 1e-12 );
		size_t lo = 0, hi = 0; for ( size_t i = 1; i < n; ++i ) { if ( v[ i ] < v[ lo ] ) lo = i; if ( v[ hi ] < v[ i ] ) hi = i; } // the first of equal elements
		CHECK_EQ( size_t( flut::min_element( v ) - v.begin() ), lo ); CHECK_EQ( size_t( flut::max_element( v ) - v.begin() ), hi ); CHECK_EQ( size_t( flut::min_element( c ) - c.begin() ), lo ); CHECK_EQ( size_t( flut::max_element( c ) - c.begin() ), hi );
	}
	T x = T( g.i( -span, span ) * unit ); size_t first = flut::no_index; for ( size_t i = v.size(); i-- > 0; ) if ( v[ i ] == x ) first = i; g.note( "x", x );
	CHECK_EQ( flut::find_index( v, x ), first ); CHECK_EQ( size_t( flut::find( v, x ) - v.begin() ), std::min( first, v.size() ) );
	auto gt = [&]( T y ) { return y > x; }; size_t fi = v.size(); for ( size_t i = v.size(); i-- > 0; ) if ( gt( v[ i ] ) ) fi = i; CHECK_EQ( size_t( flut::find_if( v, gt ) - v.begin() ), fi ); CHECK_EQ( size_t( flut::find_if( c, gt ) - c.begin() ), fi );
	vector< T > want, got, got2; for ( T y : v ) if ( gt( y ) ) want.push_back( y ); auto view = flut::make_view_if( v, gt ); for ( auto& y : view ) got.push_back( y ); CHECK_EQ( got, want );
	auto view2 = flut::make_view_if( c.begin(), c.end(), gt ); for ( auto it = view2.begin(); it != view2.end(); it++ ) got2.push_back( *it ); CHECK_EQ( got2, want );
	{ // a view's iterator: equality both ways, postfix yields the old place, -> reaches the element
		auto it = view.begin(); for ( size_t i = 0; i < want.size(); ++i ) { CHECK( it != view.end() && !( it == view.end() ) ); CHECK_EQ( *it.operator->(), want[ i ] ); if ( i % 2 ) { auto old = it++; CHECK_EQ( *old, want[ i ] ); CHECK( !( old == it ) && old != it ); } else { auto& r = ++it; CHECK( r == it ); } } CHECK( it == view.end() && !( it != view.end() ) );
		std::ostringstream os; flut::operator<<( os, v ); string txt; for ( size_t i = 0; i < v.size(); ++i ) { std::ostringstream e; e << v[ i ]; txt += ( i ? "\t" : "" ) + e.str(); } CHECK_EQ( os.str(), txt + "\n" ); // elements separated by tabs
		auto fc = flut::find< vector< T >, int >( c, x ); CHECK_EQ( size_t( fc - c.begin() ), std::min( first, v.size() ) );
	}
	CHECK_EQ( v, keep );
}
LAW( algorithms, 120000 ) { algo< double >( g, 0.25 ); }
LAW( algorithms_int, 60000 ) { algo< int >( g, 1 ); }

LAW( ranges, 150000 )
{
	int b = g.i( -100, 100 ), n = g.i( 0, 60 ), st = g.i( 1, 7 ); bool down = g.chance( 1, 4 ); if ( down ) st = -st; g.note( "begin", b ).note( "count", n ).note( "step", st ); g.nontrivial( n > 2 );
	vector< int > want, got; for ( int i = 0; i < n; ++i ) want.push_back( b + i ); for ( int i : flut::make_irange( b, b + n ) ) { got.push_back( i ); if ( got.size() > want.size() ) break; } CHECK_EQ( got, want );
	got.clear(); for ( int i : flut::make_irange( n ) ) { CHECK_EQ( i, (int)got.size() ); got.push_back( i ); } CHECK_EQ( got.size(), (size_t)n );
	want.clear(); got.clear(); for ( int i = 0; i < n; ++i ) want.push_back( b + i * st ); auto r = flut::make_irange( b, b + n * st, st ); for ( auto it = r.begin(); it != r.end(); ) { got.push_back( it++ ); if ( got.size() > want.size() ) break; } CHECK_EQ( got, want );
	got.clear(); for ( int i : flut::make_irange( flut::make_irange( b, b + n * st ), st ) ) { got.push_back( i ); if ( got.size() > want.size() ) break; } CHECK_EQ( got, want ); CHECK_EQ( r.end() - r.begin(), n );
	{ // iterators: the value before a postfix step, the value after a prefix step, equality in both directions
		auto q = flut::make_irange( b, b + n ); auto it = q.begin(); auto rt = r.begin(); auto one = flut::irange_step< int >( b, b + n ); auto two = flut::irange_step< int >( q ); auto ot = one.begin(), tt = two.begin();
		for ( int i = 0; i < n; ++i ) {
			CHECK( !( it == q.end() ) && it != q.end() ); CHECK( !( rt == r.end() ) && rt != r.end() ); CHECK( ot != one.end() && tt != two.end() ); CHECK_EQ( *ot, b + i ); CHECK_EQ( *tt, b + i ); CHECK_EQ( it - q.begin(), i ); CHECK_EQ( rt - r.begin(), i );
			if ( i % 2 ) { CHECK_EQ( it++, b + i ); CHECK_EQ( rt++, b + i * st ); CHECK_EQ( ot++, b + i ); CHECK_EQ( tt++, b + i ); } else { CHECK_EQ( ++it, b + i + 1 ); CHECK_EQ( ++rt, b + ( i + 1 ) * st ); CHECK_EQ( ++ot, b + i + 1 ); CHECK_EQ( ++tt, b + i + 1 ); }
		}
		CHECK( it == q.end() && !( it != q.end() ) ); CHECK( rt == r.end() && !( rt != r.end() ) ); CHECK( ot == one.end() && tt == two.end() );
		long long base = 3000000000000ll * g.i( -3, 3 ); long long k = 0; for ( long long i : flut::make_irange( base, base + (long long)n * 4000000000ll, 4000000000ll ) ) { CHECK_EQ( i, base + k * 4000000000ll ); if ( ++k > n ) break; } CHECK_EQ( k, (long long)n );
	}
	// the end need not be a whole number of steps away, and may lie on the other side
	int e = g.i( -200, 200 ); want.clear(); got.clear(); g.note( "end", e ); for ( int i = b; st > 0 ? i < e : i > e; i += st ) want.push_back( i ); for ( int i : flut::make_irange( b, e, st ) ) { got.push_back( i ); if ( got.size() > want.size() ) break; } CHECK_EQ( got, want );
	{ vector< size_t > w, o; size_t ub = g.size( 100 ), ue = ub + g.size( 100 ), us = 1 + g.below( 9 ); for ( size_t i = ub; i < ue; i += us ) w.push_back( i ); for ( size_t i : flut::make_irange( ub, ue, us ) ) { o.push_back( i ); if ( o.size() > w.size() ) break; } CHECK_EQ( o, w ); w.clear(); o.clear(); for ( size_t i = ub; i < ue; ++i ) w.push_back( i ); for ( size_t i : flut::make_irange( ub, ue ) ) { o.push_back( i ); if ( o.size() > w.size() ) break; } CHECK_EQ( o, w ); }
	CHECK_EQ( flut::make_irange( b, b + n ).end() - flut::make_irange( b, b + n ).begin(), n ); flut::irange< int > nothing; CHECK( nothing.begin() == nothing.end() );
}
