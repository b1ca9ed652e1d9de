// Included first by every law file: the prelude that the repository's own build uses, and the engine.
#pragma once
#include <algorithm>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/system/log.hpp"
#include "flut/char_stream.hpp"
#include "flut/buffer/data_header.hpp"
#include "flut/math/math.hpp"
#include <atomic>
#include <thread>
#include "pbt.hpp"
using pbt::Gen; using pbt::Seq;

// the decimal expansion of a point between two neighbouring floats, a trifle above or below it: only the nearest value is right
static inline std::string between_floats( Gen& g ) {
	float f = (float)g.real( 1e6 ); if ( std::fabs( f ) < 1e-20f ) f = 1; float n = std::nextafterf( f, 1e30f ); double mid = ( (double)f + (double)n ) / 2; char b[ 400 ]; snprintf( b, sizeof b, "%.160f", mid ); std::string s = b; // exact
	if ( g.coin() ) s += "1"; else { size_t p = s.find_last_not_of( '0' ); if ( p != std::string::npos && isdigit( s[ p ] ) ) { s[ p ]--; for ( size_t i = p + 1; i < s.size(); ++i ) s[ i ] = '9'; } } return s;
}

// a power of two: scaling by it is exact, so laws of arithmetic hold alike at every magnitude
inline double pow2( Gen& g, int lo, int hi ) { return g.chance( 1, 3 ) ? std::ldexp( 1.0, g.i( lo, hi ) ) : 1.0; }
// a size at or next to a power of two, where buffers end
static inline size_t edge_size( Gen& g, size_t max ) { size_t n = size_t( 1 ) << g.below( 17 ); while ( n > max ) n /= 2; return n - 1 + g.below( 3 ); }

// the work of every thread goes on at the same time; f( thread, round ) tells whether it gave the right answer
template< typename F > inline int wrong_in_threads( int threads, int rounds, F f ) {
	std::atomic< int > bad( 0 ), ready( 0 ); std::vector< std::thread > ts;
	for ( int t = 0; t < threads; ++t ) ts.emplace_back( [&, t]() { ++ready; while ( ready < threads ) std::this_thread::yield(); for ( int k = 0; k < rounds; ++k ) try { if ( !f( t, k ) ) ++bad; } catch ( const std::exception& ) { ++bad; } } );
	for ( auto& t : ts ) t.join(); return bad;
}

// now and then a text of many thousands of characters: the given one over and over
static inline std::string swell( Gen& g, const std::string& s, int one_in = 500, size_t max = 70000 ) {
	if ( s.empty() || !g.chance( 1, one_in ) ) return s;
	std::string o; bool exact = g.coin(); size_t n = exact ? edge_size( g, max ) : g.size( max ); while ( o.size() < n ) o += s; if ( exact ) o.resize( std::max( n, std::min( o.size(), s.size() ) ) ); return o.empty() ? s : o;
}
