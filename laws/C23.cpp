#include "common.hpp"
#include "flut/factory.hpp"
#include "flut/system_tools.hpp"
PROPERTY( "C23", "histories of up to 30 (some after 120 more) registrations (own or default names, replacing earlier ones) and creations with generated arguments, on copies too. Non-trivial: at least two registered names and one creation of each outcome." )
using std::string; using std::vector;
static int alive = 0;
struct base { base( int a, const string& b ) : x( a ), y( b ) { ++alive; } virtual ~base() { --alive; } virtual int kind() const = 0; int x; string y; };
namespace ns { struct first : base { using base::base; int kind() const override { return 1; } }; namespace inner { struct second : base { using base::base; int kind() const override { return 2; } }; } }
struct third : base { using base::base; int kind() const override { return 3; } };
template< typename T > struct tmpl : base { using base::base; int kind() const override { return 4; } };
struct plain { virtual ~plain() {} virtual int id() const { return 0; } }; struct plain_a : plain { int id() const override { return 1; } }; struct plain_b : plain { int id() const override { return 2; } };

LAW( history, 150000 )
{
	using F = flut::factory< base, int, const string& >; F f; std::map< string, int > m; CHECK( f.empty() ); Seq s( g, 30 ); string log; int ok = 0, miss = 0; static const vector< string > names = { "a", "b", "first", "second", "third", "", "long name with spaces 0123456789" };
	vector< string > own; if ( g.chance( 1, 25 ) ) { size_t n = g.size( 120 ); for ( size_t i = 0; i < n; ++i ) { string k = "class" + std::to_string( i ); if ( i % 3 == 0 ) f.register_class< ns::first >( k ); else if ( i % 3 == 1 ) f.register_class< ns::inner::second >( k ); else f.register_class< third >( k ); m[ k ] = 1 + int( i % 3 ); own.push_back( k ); } if ( g.noting ) log = " many(" + std::to_string( n ) + ")"; }
	while ( s.more() ) {
		string n = g.chance( 1, 5 ) ? g.str( 8, "firstA_:", true ) : !own.empty() && g.chance( 1, 4 ) ? g.pick( own ) : g.pick( names ); own.push_back( n ); size_t op = g.weighted( { 4, 2, 8, 1 } ); int k = 1 + (int)g.below( 3 ); if ( g.noting ) log += " " + std::to_string( op ) + ":" + n + "/" + std::to_string( k );
		switch ( op ) {
		case 0: if ( k == 1 ) f.register_class< ns::first >( n ); else if ( k == 2 ) f.register_class< ns::inner::second >( n ); else f.register_class< third >( n ); m[ n ] = k; break;
		case 1: if ( k == 1 ) { f.register_class< ns::first >(); m[ "first" ] = 1; } else if ( k == 2 ) { f.register_class< ns::inner::second >(); m[ "second" ] = 2; } else { f.register_class< third >(); m[ "third" ] = 3; } break;
		case 2: {
			int a = g.i( -100, 100 ); string b = g.str( 10, "ab", true ); int before = alive; CHECK_EQ( f.has_type( n ), m.count( n ) > 0 );
			if ( m.count( n ) ) {
				++ok; std::unique_ptr< base > p; switch ( g.below( 4 ) ) { case 0: p = f.create( n, a, b ); break; case 1: p = f.try_create( n, a, b ); break; case 2: p = f( n, a, b ); break; default: p = f[ n ]( a, b ); }
				CHECK( p != nullptr ); CHECK_EQ( p->kind(), m[ n ] ); CHECK_EQ( p->x, a ); CHECK_EQ( p->y, b ); CHECK_EQ( alive, before + 1 ); auto q = f.create( n, a, b ); CHECK( q.get() != p.get() ); p.reset(); q.reset(); CHECK_EQ( alive, before );
			}
			else { ++miss; CHECK_THROWS( f.create( n, a, b ) ); CHECK_THROWS( f( n, a, b ) ); CHECK_THROWS( f[ n ] ); CHECK( f.try_create( n, a, b ) == nullptr ); CHECK( !f.has_type( n ) ); CHECK_EQ( alive, before ); }
			break; }
		default: { F c( f ); c.register_class< third >( "copy" ); CHECK( !f.has_type( "copy" ) ); CHECK_EQ( c.create( "copy", 1, "x" )->kind(), 3 ); f = F( f ); }
		}
		CHECK_EQ( f.empty(), m.empty() );
	}
	g.note( "ops", log ); g.nontrivial( m.size() > 1 && ok && miss ); for ( auto& n : names ) CHECK_EQ( f.has_type( n ), m.count( n ) > 0 ); for ( auto& n : own ) CHECK_EQ( f.has_type( n ), m.count( n ) > 0 );
	flut::factory< plain > p; bool both = g.coin(); p.register_class< plain_a >(); if ( both ) p.register_class< plain_b >( "plain_a" ); CHECK_EQ( p.create( "plain_a" )->id(), both ? 2 : 1 );
}

LAW( type_names, 100000 )
{
	CHECK_EQ( flut::clean_type_name< ns::first >(), string( "first" ) ); CHECK_EQ( flut::clean_type_name< ns::inner::second >(), string( "second" ) ); CHECK_EQ( flut::clean_type_name< third >(), string( "third" ) ); CHECK_EQ( flut::clean_type_name< int >(), string( "int" ) );
	// identifiers: without scope, member prefix and underscores at the ends
	string core = g.ident( 12 ); while ( !core.empty() && core.back() == '_' ) core.pop_back(); if ( core.empty() || core[ 0 ] == '_' ) core = "v" + core; if ( core.compare( 0, 2, "m_" ) == 0 ) core = "x" + core;
	string tail( g.size( 3 ), '_' ), scope; Seq s( g, 3 ); while ( s.more() ) scope += g.ident( 5 ) + "::"; size_t form = g.below( 3 ); string id = ( form == 0 ? scope + string( g.size( 3 ), '_' ) : form == 1 ? string( "m_" ) : string( g.size( 3 ), '_' ) ) + core + tail;
	g.note( "id", id ); g.nontrivial( id.size() > 3 ); CHECK_EQ( flut::tidy_identifier( id ), core );
}
