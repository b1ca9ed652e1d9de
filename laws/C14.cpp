#include "common.hpp"
#include "proptree.hpp"
#include <unistd.h>
struct In_dir { char old[ 4096 ]; In_dir( const std::string& d ) { if ( !getcwd( old, sizeof old ) || chdir( d.c_str() ) ) abort(); } ~In_dir() { if ( chdir( old ) ) abort(); } };
#include <sys/stat.h>
PROPERTY( "C14", "pairs of trees merged with and without overwriting; families of up to 8 prop and XML files in nested folders that include each other (in place or merged into the parent), include chains and cycles, with files of the same names lying in the current folder. Non-trivial: the trees share a key, or at least two includes are resolved." )
static pbt::NoLongStrings names_are_limited;
using std::string; using std::vector; using flut::prop_node;
static const vector< string > pool = { "a", "b", "c", "d", "e", "group" };
static string label( Gen& g ) { return g.chance( 1, 4 ) ? g.ident() : g.pick( pool ); }
static string value( Gen& g ) { return g.chance( 1, 5 ) ? string() : std::to_string( g.i( 0, 9999 ) ); }
static void m_merge( Tree& t, const Tree& o, bool overwrite ) { for ( auto& k : o.kids ) { if ( auto* x = t.find( k.first ) ) { if ( overwrite ) *x = k.second; } else t.kids.push_back( k ); } }

LAW( merge, 120000 )
{
	size_t b1 = 20, b2 = 20; Tree t = gen_tree( g, b1, 3, 8, label, value, true ), o = gen_tree( g, b2, 3, 8, label, value, true ); if ( g.chance( 1, 20 ) ) { widen( g, t, 1, 120 ); widen( g, o, 1, 120 ); } deepen( g, t, 40, 100 ); deepen( g, o, 40, 100 ); bool ow = g.coin();
	g.note( "into", str_of( t ) ).note( "from", str_of( o ) ).note( "overwrite", ow ); bool shared = false; for ( auto& k : o.kids ) shared |= t.find( k.first ) != nullptr; g.nontrivial( shared );
	prop_node p = to_prop( t ), q = to_prop( o ); flut::merge_prop_nodes( p, q, ow ); m_merge( t, o, ow );
	CHECK_TREE( from_prop( p ), t ); CHECK_TREE( from_prop( q ), o );
	prop_node again = p; flut::merge_prop_nodes( again, q, false ); CHECK_TREE( from_prop( again ), t );
	// merging a part of the tree, or the tree itself, into it
	Tree part = t; string where; { const Tree* n = &t; prop_node* pn = &p; for ( int d = 0; d < 3 && !n->kids.empty() && g.chance( 3, 4 ); ++d ) { size_t i = g.below( n->kids.size() ); n = &n->kids[ i ].second; pn = &pn->get_child( i ); where += "/" + std::to_string( i ); } part = *n; g.note( "part", where ); flut::merge_prop_nodes( p, *pn, ow ); }
	m_merge( t, part, ow ); CHECK_TREE( from_prop( p ), t );
}

// files: 0 is the root, a file includes only later ones
struct File { string rel; Tree root; string root_name; }; // rel: path relative to scratch
static string dir_of( const string& p ) { size_t n = p.find_last_of( '/' ); return n == string::npos ? "" : p.substr( 0, n ); }
static Tree expand( const vector< File >& fs, const Tree& t, const string& directive, int& resolved ) {
	// model: walk the children left to right; an include inserts the other file's root, or merges its children (existing keys win)
	Tree r; r.value = t.value; vector< std::pair< string, Tree > > work( t.kids ); vector< bool > done( work.size(), false );
	for ( size_t i = 0; i < work.size(); ) {
		if ( !done[ i ] && work[ i ].first == directive ) {
			const Tree& inc = work[ i ].second; int idx = atoi( inc.find( "idx" )->value.c_str() ); ++resolved;
			Tree other = expand( fs, fs[ idx ].root, directive, resolved );
			bool merge = inc.find( "merge_children" ) && inc.find( "merge_children" )->value == "1";
			work.erase( work.begin() + i ); done.erase( done.begin() + i );
			if ( merge ) { Tree tmp; tmp.kids = work; size_t before = work.size(); m_merge( tmp, other, false ); work = tmp.kids; done.resize( work.size(), true ); (void)before; }
			else { work.insert( work.begin() + i, { fs[ idx ].root_name, other } ); done.insert( done.begin() + i, true ); ++i; }
		}
		else { if ( !done[ i ] ) { work[ i ].second = expand( fs, work[ i ].second, directive, resolved ); done[ i ] = true; } ++i; }
	}
	r.kids = work; return r;
}
static void add_includes( Gen& g, vector< File >& fs, size_t self, Tree& t, const string& directive, int depth, int& left ) {
	for ( auto& k : t.kids ) if ( depth < 3 && !k.second.kids.empty() ) add_includes( g, fs, self, k.second, directive, depth + 1, left );
	if ( !t.value.empty() ) return;
	Seq s( g, 2, depth == 0 && self == 0 ? 1 : 0 );
	while ( s.more() && self + 1 < fs.size() && left > 0 ) {
		--left; size_t idx = self + 1 + g.below( fs.size() - self - 1 ); Tree inc; string from = dir_of( fs[ self ].rel ), to = fs[ idx ].rel, rel;
		// path of the included file relative to the including one (folders are "", "x", "x/y")
		if ( from.empty() ) rel = to; else { rel = "../"; if ( from == "x/y" ) rel += "../"; rel += to; }
		Tree v; v.value = rel; inc.kids.push_back( { "file", v } );
		v.value = std::to_string( idx ); inc.kids.push_back( { "idx", v } );
		if ( g.coin() ) { v.value = g.coin() ? "1" : "0"; inc.kids.push_back( { "merge_children", v } ); }
		t.kids.insert( t.kids.begin() + g.below( t.kids.size() + 1 ), { directive, inc } );
	}
}
LAW( include, 20000 )
{
	static bool made = false; string base = pbt::scratch_dir();
	mkdir( ( base + "/x" ).c_str(), 0777 ); mkdir( ( base + "/x/y" ).c_str(), 0777 ); (void)made;
	string directive = g.pick( { "INCLUDE", "INCLUDE", "import" } );
	vector< File > fs( 1 + g.size( 7 ) );
	for ( size_t i = 0; i < fs.size(); ++i ) {
		fs[ i ].rel = string( g.pick( { "", "x/", "x/y/" } ) ) + "f" + std::to_string( i ) + ( g.chance( 1, 4 ) ? ".xml" : ".prop" );
		size_t budget = 10; fs[ i ].root = gen_tree( g, budget, 3, 4, label, value, false ); fs[ i ].root_name = "root" + std::to_string( i );
	}
	int left = 6;
	for ( size_t i = 0; i < fs.size(); ++i ) add_includes( g, fs, i, fs[ i ].root, directive, 0, left );
	int resolved = 0; Tree want; want.kids.push_back( { fs[ 0 ].root_name, expand( fs, fs[ 0 ].root, directive, resolved ) } );
	if ( want.count() > 2000 ) return;
	for ( auto& f : fs ) {
		Tree d; d.kids.push_back( { f.root_name, f.root } );
		if ( f.rel.back() == 'l' ) flut::save_xml( to_prop( d ), flut::path( base + "/" + f.rel ) ); else flut::save_prop( to_prop( d ), flut::path( base + "/" + f.rel ) );
		g.note( f.rel.c_str(), str_of( d ) );
	}
	g.nontrivial( resolved >= 2 ); g.label( "merged", str_of( fs[ 0 ].root ).find( "merge_children:\"1\"" ) != string::npos );
	// the current folder does not matter: there are other files under the same names, or the first file is named relative to it
	bool rel = g.chance( 1, 3 ); string decoy = base + "/decoy"; g.note( "relative", rel ); if ( !rel ) for ( string d : { "", "/x", "/x/y" } ) { mkdir( ( decoy + d ).c_str(), 0777 ); for ( size_t i = 0; i < fs.size(); ++i ) { pbt::write_file( decoy + d + "/f" + std::to_string( i ) + ".prop", "wrong { wrong = 1 }\n" ); pbt::write_file( decoy + d + "/f" + std::to_string( i ) + ".xml", "<wrong><wrong>1</wrong></wrong>\n" ); } }
	In_dir there( rel ? base : decoy ); flut::path first( ( rel ? string() : base + "/" ) + fs[ 0 ].rel );
	prop_node pn = directive == "INCLUDE" ? flut::load_file_with_include( first ) : flut::load_file_with_include( first, directive );
	CHECK_EQ( pn.count_unaccessed(), want.count() ); // loading does not count as reading
	CHECK_TREE( from_prop( pn ), want );
}

LAW( include_cycle, 300 )
{
	string base = pbt::scratch_dir(); int n = g.i( 1, 4 ); g.note( "cycle length", n ); g.nontrivial();
	for ( int i = 0; i < n; ++i ) pbt::write_file( base + "/c" + std::to_string( i ) + ".prop", "r" + std::to_string( i ) + " { a = 1\n INCLUDE { file = c" + std::to_string( ( i + 1 ) % n ) + ".prop } }\n" );
	CHECK_THROWS( flut::load_file_with_include( flut::path( base + "/c0.prop" ) ) );
	pbt::write_file( base + "/m.prop", "r { INCLUDE { file = absent.prop } }\n" ); CHECK_THROWS( flut::load_file_with_include( flut::path( base + "/m.prop" ) ) );
	pbt::write_file( base + "/two.prop", "p = 1\nq = 2\n" ); pbt::write_file( base + "/m.prop", "r { INCLUDE { file = two.prop } }\n" ); CHECK_THROWS( flut::load_file_with_include( flut::path( base + "/m.prop" ) ) );
}

LAW( include_chain, 600 )
{
	// any chain of distinct files is followed to its end, however many files (up to 90) it has
	string base = pbt::scratch_dir(); int n = g.i( 1, 90 ); bool merge = g.coin(), xml = g.chance( 1, 3 ); string ext = xml ? ".xml" : ".prop"; g.note( "ext", ext ).note( "files", n ).note( "merge", merge ); g.nontrivial( n > 2 );
	for ( int i = 0; i < n; ++i ) { string t = "r" + std::to_string( i ) + " { a" + std::to_string( i ) + " = " + std::to_string( i ) + "\n"; if ( i + 1 < n ) { t += "INCLUDE { file = l" + std::to_string( i + 1 ) + ext + "\n"; if ( merge ) t += "merge_children = 1\n"; t += "}\n"; } t += "}\n"; if ( xml ) { string I = std::to_string( i ); t = "<r" + I + "><a" + I + ">" + I + "</a" + I + ">"; if ( i + 1 < n ) t += "<INCLUDE file=\"l" + std::to_string( i + 1 ) + ext + ( merge ? "\" merge_children=\"1\"/>" : "\"/>" ); t += "</r" + I + ">"; } pbt::write_file( base + "/l" + std::to_string( i ) + ext, t ); }
	Tree want; Tree* at = &want; if ( merge ) { want.kids.push_back( { "r0", Tree() } ); at = &want.kids[ 0 ].second; for ( int i = 0; i < n; ++i ) { Tree v; v.value = std::to_string( i ); at->kids.push_back( { "a" + std::to_string( i ), v } ); } }
	else for ( int i = 0; i < n; ++i ) { at->kids.push_back( { "r" + std::to_string( i ), Tree() } ); at = &at->kids.back().second; Tree v; v.value = std::to_string( i ); at->kids.push_back( { "a" + std::to_string( i ), v } ); }
	CHECK_TREE( from_prop( flut::load_file_with_include( flut::path( base + "/l0" + ext ) ) ), want );
}
