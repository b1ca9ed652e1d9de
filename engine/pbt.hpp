// Property-based testing engine: choice-sequence generators, laws, failures.
// Every random decision of a law goes through Gen::choose, which records the value that was
// finally used; replaying the recorded sequence reproduces the case, shortening or lowering it shrinks it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <limits>
#include <sstream>
#include <initializer_list>
#include <type_traits>

namespace pbt
{
	struct Rng
	{
		uint64_t s[ 2 ];
		void seed( uint64_t a, uint64_t b );
		uint64_t next();
		uint64_t below( uint64_t n ) { return n ? next() % n : 0; } // n == 0: 0
		bool one_in( uint64_t n ) { return below( n ) == 0; }
	};

	struct Failure { std::string msg; };

	/// now and then a sequence (or, unless switched off, a string) is longer than asked for, but by no more than this
	inline size_t longest( size_t max ) { return max < 100 ? max * 6 : max; }
	extern bool long_strings;
	struct NoLongStrings { NoLongStrings() { long_strings = false; } };

	class Gen
	{
	public:
		// --- core ---
		template< typename F > uint64_t choose( uint64_t max, F f ) {
			if ( rec.size() >= max_choices ) return 0;
			uint64_t v;
			if ( pos < src_len ) { v = src[ pos ]; if ( v > max ) v = max == ~0ull ? v : v % ( max + 1 ); }
			else if ( random ) { v = f( rng ); if ( v > max ) v = max; }
			else v = 0;
			++pos;
			record( v );
			return v;
		}

		/// uniform in [0,n)
		size_t below( size_t n ) { return n <= 1 ? 0 : (size_t)choose( n - 1, [&]( Rng& r ) { return r.below( n ); } ); }
		/// true with probability num/den, shrinks to false
		bool chance( unsigned num, unsigned den ) { return choose( 1, [&]( Rng& r ) { return uint64_t( r.below( den ) < num ); } ) != 0; }
		bool coin() { return chance( 1, 2 ); }
		/// weighted choice, shrinks to index 0
		size_t weighted( std::initializer_list< int > w );
		/// small sizes preferred, boundary values and compared constants included, [0,max]
		size_t size( size_t max );
		/// number of elements in a sequence, written as: for ( Seq s( g, max ); s.more(); )
		struct Seq {
			Seq( Gen& g_, size_t max_, size_t min_ = 0 ) : g( g_ ), n( 0 ), max( longest( max_ ) ), min( min_ ), target( g_.random ? g_.seq_target( max_ ) : 0 ) {}
			bool more() {
				if ( n >= max ) return false;
				if ( n < min ) { ++n; return true; }
				bool m = g.choose( 1, [&]( Rng& ) { return uint64_t( n < target ); } ) != 0;
				if ( m ) ++n;
				return m;
			}
			Gen& g; size_t n, max, min, target;
		};
		/// integer in [lo,hi], shrinks toward 0 (or the bound nearest 0); boundary-heavy
		int64_t i64( int64_t lo, int64_t hi );
		int i( int lo, int hi ) { return (int)i64( lo, hi ); }
		uint64_t u64( uint64_t lo, uint64_t hi );
		template< typename T > const T& pick( const std::vector< T >& v ) { return v[ below( v.size() ) ]; }
		template< typename T > T pick( std::initializer_list< T > l ) { return *( l.begin() + below( l.size() ) ); }
		const char* pick( std::initializer_list< const char* > l ) { return *( l.begin() + below( l.size() ) ); }

		/// any byte except those in `not`, text-heavy
		char byte( const char* preferred, bool any, const char* excluded = "" );
		/// string of at most max bytes: from preferred characters and, if any is set, arbitrary non-NUL bytes
		std::string str( size_t max, const char* preferred, bool any = false, const char* excluded = "" );
		/// identifier: letter followed by letters, digits, underscore
		std::string ident( size_t max = 12 );

		/// finite double in [-mag,mag]; nice values, fractions, uniform, tiny
		double real( double mag );
		double real( double lo, double hi );
		double positive( double lo, double hi );
		float realf( float mag ) { return (float)real( mag ); }

		// --- reporting ---
		void label( const char* name, bool cond = true ) { if ( cond ) do_label( name ); }
		void nontrivial( bool b = true ) { nontriv = nontriv || b; }
		template< typename T > Gen& note( const char* k, const T& v ) { if ( noting ) { std::ostringstream o; o.precision( 17 ); put( o, v ); do_note( k, o.str() ); } return *this; }

		// --- state (engine) ---
		bool random = false, noting = false, nontriv = false;
		const uint64_t* src = nullptr; size_t src_len = 0, pos = 0;
		std::vector< uint64_t > rec;
		Rng rng;
		std::string notes;
		size_t max_choices = 40000;
		size_t seq_target( size_t max );
		void record( uint64_t v );
		void do_label( const char* name );
		void do_note( const char* k, const std::string& v );
		static std::string esc( const std::string& s );
		static void put( std::ostream& o, const std::string& s ) { o << '"' << esc( s ) << '"'; }
		static void put( std::ostream& o, const char* s ) { o << '"' << esc( s ) << '"'; }
		template< typename T > static void put( std::ostream& o, const std::vector< T >& v ) { o << '['; for ( size_t i = 0; i < v.size(); ++i ) { if ( i ) o << ','; put( o, T( v[ i ] ) ); } o << ']'; }
		template< typename T > static typename std::enable_if< std::is_arithmetic< T >::value >::type put( std::ostream& o, const T& v ) { o << +v; }
	};
	using Seq = Gen::Seq;

	struct Law { const char* name; void( *fn )( Gen& ); long quick; };
	std::vector< Law >& laws();
	struct Reg { Reg( const char* n, void( *f )( Gen& ), long q ) { laws().push_back( { n, f, q } ); } };

	[[noreturn]] void fail_at( const char* file, int line, const std::string& msg );
	extern const char* property_id;
	extern const char* property_rule;

	/// scratch directory of this process (created on demand, removed by the engine)
	std::string scratch_dir();
	void write_file( const std::string& name, const std::string& contents );
	std::string read_file( const std::string& name );
	void stop_coverage(); // for a child process that runs static destructors
	bool file_there( const std::string& name );

	/// |a-b| <= abs + rel*max(|a|,|b|), false for NaN
	inline bool close( double a, double b, double rel, double abs_tol ) {
		if ( a == b ) return true;
		return std::fabs( a - b ) <= abs_tol + rel * std::max( std::fabs( a ), std::fabs( b ) );
	}
	template< typename T > std::string show( const T& v ) { std::ostringstream o; o.precision( 17 ); Gen::put( o, v ); return o.str(); }

	/// true if f throws any std::exception
	template< typename F > bool throws( F f ) { try { f(); } catch ( const std::exception& ) { return true; } return false; }
}

#define LAW( name_, quick_ ) static void law_##name_( pbt::Gen& g ); static pbt::Reg reg_##name_( #name_, &law_##name_, quick_ ); static void law_##name_( pbt::Gen& g )
#define PROPERTY( id_, rule_ ) namespace pbt { const char* property_id = id_; const char* property_rule = rule_; }
#define FAIL( msg_ ) pbt::fail_at( __FILE__, __LINE__, msg_ )
#define CHECK( cond_ ) do { if ( !( cond_ ) ) pbt::fail_at( __FILE__, __LINE__, #cond_ ); } while ( 0 )
#define CHECK_MSG( cond_, msg_ ) do { if ( !( cond_ ) ) pbt::fail_at( __FILE__, __LINE__, std::string( #cond_ ) + ": " + ( msg_ ) ); } while ( 0 )
#define CHECK_EQ( got_, want_ ) do { const auto g_ = ( got_ ); const auto w_ = ( want_ ); if ( !( g_ == w_ ) ) pbt::fail_at( __FILE__, __LINE__, std::string( #got_ " == " #want_ ": got " ) + pbt::show( g_ ) + ", expected " + pbt::show( w_ ) ); } while ( 0 )
#define CHECK_CLOSE( got_, want_, rel_, abs_ ) do { double g_ = double( got_ ), w_ = double( want_ ); if ( !pbt::close( g_, w_, rel_, abs_ ) ) pbt::fail_at( __FILE__, __LINE__, std::string( #got_ " ~ " #want_ ": got " ) + pbt::show( g_ ) + ", expected " + pbt::show( w_ ) ); } while ( 0 )
#define CHECK_THROWS( expr_ ) do { bool t_ = false; try { (void)( expr_ ); } catch ( const std::exception& ) { t_ = true; } if ( !t_ ) pbt::fail_at( __FILE__, __LINE__, #expr_ " should throw" ); } while ( 0 )
