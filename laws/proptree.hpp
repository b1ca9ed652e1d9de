// Model of a prop_node tree and its generator.
#pragma once
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
struct Tree {
	std::string value; std::vector< std::pair< std::string, Tree > > kids;
	bool operator==( const Tree& o ) const { return value == o.value && kids == o.kids; }
	bool operator!=( const Tree& o ) const { return !( *this == o ); }
	size_t count() const { size_t n = 1; for ( auto& k : kids ) n += k.second.count(); return n; }
	size_t depth() const { size_t d = 0; for ( auto& k : kids ) d = std::max( d, k.second.depth() + 1 ); return d; }
	const Tree* find( const std::string& k ) const { for ( auto& c : kids ) if ( c.first == k ) return &c.second; return nullptr; }
	Tree* find( const std::string& k ) { for ( auto& c : kids ) if ( c.first == k ) return &c.second; return nullptr; }
};
inline void show_tree( std::string& o, const Tree& t ) { o += '"'; o += Gen::esc( t.value ); o += '"'; if ( !t.kids.empty() ) { o += '{'; for ( auto& k : t.kids ) { o += Gen::esc( k.first ); o += ':'; show_tree( o, k.second ); o += ' '; } o += '}'; } }
inline std::string str_of( const Tree& t ) { std::string s; show_tree( s, t ); return s; }
inline flut::prop_node to_prop( const Tree& t ) { flut::prop_node pn; pn.set_value( t.value ); for ( auto& k : t.kids ) pn.push_back( k.first, to_prop( k.second ) ); return pn; }
inline Tree from_prop( const flut::prop_node& pn ) { Tree t; t.value = pn.get_value(); for ( auto it = pn.begin(); it != pn.end(); ++it ) t.kids.push_back( { it->first, from_prop( it->second ) } ); return t; }
#define CHECK_TREE( got_, want_ ) do { Tree g_ = ( got_ ), w_ = ( want_ ); if ( g_ != w_ ) pbt::fail_at( __FILE__, __LINE__, std::string( #got_ " == " #want_ ": got " ) + str_of( g_ ) + ", expected " + str_of( w_ ) ); } while ( 0 )
// shape: how labels and values are made, how many nodes at most
template< typename L, typename V > Tree gen_tree( Gen& g, size_t& budget, int depth, size_t max_kids, L label, V value, bool value_and_kids, bool root = true ) {
	Tree t; if ( root && g.chance( 1, 100 ) ) { budget *= 5; depth *= 4; }
	bool group = root || ( depth > 0 && g.chance( 2, 5 ) );
	if ( group ) { Seq s( g, max_kids ); while ( budget > 0 && s.more() ) { --budget; std::string k = label( g ); t.kids.push_back( { k, gen_tree( g, budget, depth - 1, max_kids, label, value, value_and_kids, false ) } ); } }
	if ( !root && ( t.kids.empty() || ( value_and_kids && g.chance( 1, 4 ) ) ) ) t.value = value( g );
	return t;
}
// now and then one node gets very many children
inline Tree* widen( Gen& g, Tree& t, uint64_t one_in, size_t max ) { if ( !g.chance( 1, one_in ) ) return nullptr; Tree* m = &t; for ( int d = 0; d < 3 && !m->kids.empty() && g.coin(); ++d ) { m = &m->kids[ g.below( m->kids.size() ) ].second; } size_t n = g.size( max ); for ( size_t i = 0; i < n; ++i ) { Tree c; c.value = std::to_string( i * 7 % 100 ); m->kids.push_back( { "w" + std::to_string( i ), c } ); } return m; }
// now and then a chain of many nested nodes is added at the end
inline void deepen( Gen& g, Tree& t, uint64_t one_in, size_t max ) {
	if ( !g.chance( 1, one_in ) ) return;
	size_t n = g.coin() ? std::min( max, edge_size( g, max ) ) : g.size( max ); Tree* m = &t;
	for ( size_t i = 0; i < n; ++i ) { m->kids.push_back( { "d" + std::to_string( i % 10 ), Tree() } ); m = &m->kids.back().second; }
	if ( n ) m->value = "deep";
}
