/* P08: the arithmetic coder and everything written with it. */
#include "encpics.hh"
#include "corpus.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "bool_encoder.hh"
#ifdef WITH_TREES
#include "encode_tree.cc"
#include "tree.cc"
#endif
#include <memory>
using std::string; using std::vector;
typedef vector<uint8_t> Bytes;

struct Sym { uint8_t bit, prob; };
/* RFC 6386's decoder, written independently: what any conforming decoder reads */
struct Rfc {
  const Bytes & b; size_t pos = 0; uint32_t range = 255; uint64_t value = 0; int have = 0;
  explicit Rfc( const Bytes & x ) : b( x ) {}
  bool get( int p )
  {
    while ( have < 8 ) { value = value << 8 | ( pos < b.size() ? b[ pos ] : 0 ); pos++; have += 8; }
    const uint32_t split = 1 + ( ( range - 1 ) * p >> 8 ); const uint64_t big = uint64_t( split ) << ( have - 8 ); bool r;
    if ( value >= big ) { r = true; range -= split; value -= big; } else { r = false; range = split; }
    while ( range < 128 ) { range <<= 1; have--; if ( have < 8 ) { value = value << 8 | ( pos < b.size() ? b[ pos ] : 0 ); pos++; have += 8; } }
    return r;
  }
};
static string show( const vector<Sym> & s ) { string o; size_t n = 0; for ( auto & x : s ) { if ( n++ > 40 ) { o += "..."; break; } o += mc::fmt( "%d/%d ", x.bit, x.prob ); } return o + mc::fmt( "(%zu symbols)", s.size() ); }
static void code( const vector<Sym> & s )
{
  static BoolEncoder enc; /* finish() renews it */
  for ( auto & x : s ) enc.put( x.bit, x.prob );
  const Bytes b = enc.finish(); mc::transition( s.size() );
  BoolDecoder d { Chunk( b ) };
  for ( size_t i = 0; i < s.size(); i++ ) if ( d.get( s[ i ].prob ) != s[ i ].bit ) { mc::describe( show( s ) ); mc::fail( mc::fmt( "symbol %zu of %zu is read back as %d", i, s.size(), not s[ i ].bit ) ); }
  if ( not d.valid() ) { mc::describe( show( s ) ); mc::fail( "the decoder says that the data ended early" ); }
  Rfc r( b );
  for ( size_t i = 0; i < s.size(); i++ ) if ( r.get( s[ i ].prob ) != s[ i ].bit ) { mc::describe( show( s ) ); mc::fail( mc::fmt( "a conforming decoder reads symbol %zu of %zu as %d", i, s.size(), not s[ i ].bit ) ); }
}

static vector<int> range( int a, int b ) { vector<int> v; for ( int i = a; i <= b; i++ ) v.push_back( i ); return v; }
static void strings()
{
  const bool T = mc::thorough();
  const vector<int> P = T ? vector<int> { 0, 1, 2, 37, 64, 127, 128, 200, 254, 255 } : vector<int> { 0, 1, 64, 127, 128, 200, 255 };
  const uint64_t A = 2 * P.size(); const int L = 6;
  uint64_t n = 1; for ( int i = 0; i < L; i++ ) n *= A;
  mc::run( "every string of 6 symbols", n, [&]( uint64_t i ) {
    mc::Digits d( i ); vector<Sym> s; for ( int k = 0; k < L; k++ ) { const int x = d( A ); s.push_back( { uint8_t( x & 1 ), uint8_t( P[ x >> 1 ] ) } ); }
    code( s ); if ( i % 100003 == 5 ) mc::sample( show( s ) );
  }, 4096 );
  /* every probability, every pair of them, with every bit */
  mc::run( "every pair of probabilities", 65536 * 4, [&]( uint64_t i ) {
    mc::Digits d( i ); const uint8_t p = d( 256 ), q = d( 256 ); const int b = d( 4 ); code( { { uint8_t( b & 1 ), p }, { uint8_t( b >> 1 ), q }, { uint8_t( b & 1 ), q }, { uint8_t( b >> 1 ), p }, { 1, 128 } } );
  }, 4096 );
  /* every bit string at one probability */
  mc::run( "every bit string", ( T ? 1u << 18 : 1u << 14 ) * 5, [&]( uint64_t i ) {
    static const int Q[] = { 128, 1, 255, 90, 180 }; vector<Sym> s; const int len = T ? 18 : 14, p = Q[ i % 5 ]; uint64_t x = i / 5; for ( int k = 0; k < len; k++ ) s.push_back( { uint8_t( x >> k & 1 ), uint8_t( p ) } ); code( s );
  }, 4096 );
  /* every prefix, a run of every length, every suffix */
  mc::run( "runs", A * A * A * ( T ? 300 : 70 ), [&]( uint64_t i ) {
    mc::Digits d( i ); auto sym = [&] { const int x = d( A ); return Sym { uint8_t( x & 1 ), uint8_t( P[ x >> 1 ] ) }; };
    const Sym a = sym(), r = sym(), z = sym(); const int len = 1 + d( T ? 300 : 70 ) * ( T ? 1 : 4 ); vector<Sym> s { a }; s.insert( s.end(), len, r ); s.push_back( z ); code( s );
  }, 64 );
  /* carries: the interval is kept across a byte boundary for n symbols, then leaves it upwards or downwards.
     Model state: (range, distance of the boundary from the bottom); all model states are expanded by a policy. */
  const int POL = T ? 24 : 12, MAXN = T ? 120 : 60;
  vector<int> X; for ( int x = 1; x < 255; x += T ? 1 : 9 ) X.push_back( x );
  mc::run( "carries", X.size() * POL * MAXN * 4 * 4, [&]( uint64_t i ) {
    mc::Digits d( i ); int o = X[ d( X.size() ) ], pol = d( POL ), n = d( MAXN ), e1 = d( 4 ), e2 = d( 4 ), range = 255, shifted = 0; vector<Sym> s;
    for ( int k = 0; k < n; k++ ) {
      /* allowed: the boundary stays strictly inside; preferred: those that use up most of the range */
      struct C { int bit, p, r, o, sh; }; vector<C> c;
      for ( int p = 0; p < 256; p += 1 + pol % 3 ) for ( int b = 0; b < 2; b++ ) {
        const int split = 1 + ( ( range - 1 ) * p >> 8 ); int r = b ? range - split : split, oo = b ? o - split : o; if ( oo <= 0 or oo >= r ) continue;
        int sh = 0; while ( r < 128 ) { r <<= 1; oo <<= 1; sh++; } c.push_back( { b, p, r, oo, sh } );
      }
      if ( c.empty() ) break;
      int best = 0; for ( auto & y : c ) best = std::max( best, y.sh );
      vector<C> top; for ( auto & y : c ) if ( y.sh == best or ( pol & 4 and y.sh + 1 >= best ) ) top.push_back( y );
      const C & y = top[ ( pol * 7 + k * ( pol % 5 ) ) % top.size() ]; s.push_back( { uint8_t( y.bit ), uint8_t( y.p ) } ); range = y.r; o = y.o; shifted += y.sh;
      mc::state( mc::mix( range * 256 + o, shifted ) );
    }
    mc::count( 0, shifted >= 24 ); { uint64_t m = mc::S->counters[ 1 ].load(); while ( m < uint64_t( shifted / 8 ) and not mc::S->counters[ 1 ].compare_exchange_weak( m, shifted / 8 ) ) {} }
    static const uint8_t EP[] = { 1, 254 };
    s.push_back( { uint8_t( e1 & 1 ), EP[ e1 >> 1 ] } ); s.push_back( { uint8_t( e2 & 1 ), EP[ e2 >> 1 ] } ); s.push_back( { uint8_t( e1 & 1 ), 128 } );
    code( s ); if ( i % 50021 == 5 ) mc::sample( "carry: " + show( s ) );
  }, 256 );
}

#ifdef WITH_TREES
template <class E, uint8_t N, const TreeArray<N> & nodes> static void tree( const char * name, const vector<int> & values )
{
  const vector<int> P { 1, 128, 255 }; uint64_t np = 1; for ( int i = 0; i < N - 1; i++ ) np *= P.size();
  mc::run( string( "tree " ) + name, np * values.size() * values.size(), [&]( uint64_t i ) {
    mc::Digits d( i ); const int a = values[ d( values.size() ) ], b = values[ d( values.size() ) ]; ProbabilityArray<N> probs; for ( int k = 0; k < N - 1; k++ ) probs.at( k ) = P[ d( P.size() ) ];
    static BoolEncoder enc; const int w[] = { a, b, a };
    for ( int v : w ) encode( enc, Tree<E, N, nodes>( static_cast<E>( v ) ), probs );
    const Bytes o = enc.finish(); BoolDecoder dec { Chunk( o ) }; mc::transition( 3 );
    for ( int k = 0; k < 3; k++ ) { const int v = dec.tree<N, E>( nodes, probs ); if ( v != w[ k ] ) { mc::describe( mc::fmt( "%d, %d, %d", a, b, a ) ); mc::fail( mc::fmt( "value %d of tree %s is read back as %d", w[ k ], name, v ) ); } }
  }, 1024 );
}
static void trees()
{
  tree<mbmode, num_y_modes, kf_y_mode_tree>( "key luma mode", range( DC_PRED, B_PRED ) );
  tree<mbmode, num_y_modes, y_mode_tree>( "luma mode", range( DC_PRED, B_PRED ) );
  tree<mbmode, num_uv_modes, uv_mode_tree>( "chroma mode", range( DC_PRED, TM_PRED ) );
  tree<bmode, num_intra_b_modes, b_mode_tree>( "subblock mode", range( B_DC_PRED, B_HU_PRED ) );
  tree<mbmode, num_mv_refs, mv_ref_tree>( "vector mode", range( NEARESTMV, SPLITMV ) );
  tree<bmode, num_inter_b_modes, submv_ref_tree>( "subblock vector mode", range( LEFT4X4, NEW4X4 ) );
  tree<uint8_t, num_segments, segment_id_tree>( "segment", range( 0, 3 ) );
  tree<uint8_t, 4, split_mv_tree>( "partition", range( 0, 3 ) );
  tree<int16_t, 8, small_mv_tree>( "small vector", range( 0, 7 ) );
}
#else
static void trees() {}
#endif

/* values inside frames: parsed as written, serialised, parsed the same */
template <class FrameType> static FrameType parse( Decoder & d, const Bytes & b ) { return d.parse_frame<FrameType>( d.decompress_frame( Chunk( b ) ) ); }
static void values()
{
  const bool T = mc::thorough();
  const int W = 16, H = 16;
  /* coefficients: every level, by block kind, position and context */
  struct Where { const char * n; int block; bool y2; }; static const Where WH[] = { { "luma after Y2", 3, true }, { "Y2", 24, true }, { "chroma", 17, true }, { "luma", 7, false }, { "chroma V", 22, true } };
  const vector<int> POS = T ? range( 0, 15 ) : vector<int> { 0, 1, 2, 6, 15 };
  static const int zz[] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
  mc::run( "every coefficient value", 4229 * 5 * POS.size(), [&]( uint64_t i ) {
    mc::Digits d( i ); const int v = int( d( 4229 ) ) - 2114; const Where & w = WH[ d( 5 ) ]; int pos = POS[ d( POS.size() ) ]; if ( w.block == 3 and pos == 0 ) pos = 1;
    mc::describe( mc::fmt( "%s, position %d, level %d", w.n, pos, v ) );
    vp8::Frame f = vp8::noisy_key( W, H, 3 ); f.q = 0; f.level = 0; auto & m = f.mb[ 0 ]; m.skip = false; m.ymode = w.y2 ? 0 : int( vp8::B ); for ( auto & c : m.c ) c.fill( 0 );
    m.c[ w.block ][ pos ] = v; if ( pos < 15 and ( v & 1 ) ) m.c[ w.block ][ 15 ] = 1;
    if ( f.mb.size() == 1 and v == 0 ) m.c[ w.block ][ 15 ] = 0;
    vp8::Gen g; const Bytes b = vp8::emit( f, g ); Bytes again;
    for ( int k = 0; k < 2; k++ ) {
      Decoder dec( W, H ); const KeyFrame fr = parse<KeyFrame>( dec, k ? again : b ); mc::transition(); int got = 0, other = 0;
      fr.macroblocks().forall( [&]( const KeyFrameMacroblock & mb ) {
        const auto & c = w.block == 24 ? mb.Y2().coefficients() : w.block < 16 ? mb.Y().at( w.block % 4, w.block / 4 ).coefficients() : w.block < 20 ? mb.U().at( ( w.block - 16 ) % 2, ( w.block - 16 ) / 2 ).coefficients() : mb.V().at( ( w.block - 20 ) % 2, ( w.block - 20 ) / 2 ).coefficients();
        got = c.at( zz[ pos ] ); other = c.at( 15 ); } );
      mc::require( got == v, mc::fmt( "level %d is read %sas %d", v, k ? "back " : "", got ) );
      mc::require( pos == 15 or other == m.c[ w.block ][ 15 ], mc::fmt( "the level after %d is read as %d", v, other ) );
      again = fr.serialize( dec.get_state().probability_tables );
      mc::require( not k or again == fr.serialize( ProbabilityTables() ), "serialising is not repeatable" );
    }
  }, 256 );
  /* motion vectors: every component value x probabilities */
  vp8::Gen g0; const Bytes key = vp8::emit( vp8::noisy_key( 32, 16, 3 ), g0 );
  static std::unique_ptr<Decoder> base( new Decoder( 32, 16 ) ); base->get_frame_output( Chunk( key ) );
  mc::run( "every vector component", 2047 * 2 * 6 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int v = int( d( 2047 ) ) - 1023, axis = d( 2 ), pr = d( 6 ), split = d( 2 );
    mc::describe( mc::fmt( "%s %d, probabilities %d%s", axis ? "column" : "row", v, pr, split ? ", subblock" : "" ) );
    vp8::Frame f = vp8::noisy_inter( 32, 16, 4 ); f.level = 0;
    for ( auto & m : f.mb ) { m = vp8::MB(); m.ref = 1; m.skip = true; m.mvmode = vp8::ZERO; }
    auto & m = f.mb[ 1 ]; const int other = ( v * 7 ) % 61;
    if ( split ) { m.mvmode = vp8::SPLIT; m.split = 3; for ( int p = 0; p < 16; p++ ) m.sub[ p ] = vp8::ZERO4; m.sub[ 5 ] = vp8::NEW4; m.subdelta[ 5 ].row = axis ? other : v; m.subdelta[ 5 ].col = axis ? v : other; }
    else { m.mvmode = vp8::NEW; m.delta.row = axis ? other : v; m.delta.col = axis ? v : other; }
    if ( pr ) for ( int a = 0; a < 2; a++ ) for ( int j = 0; j < 19; j++ ) f.mv_prob[ a ][ j ] = vp8::OptI( pr == 1 ? 0 : pr == 2 ? 127 : ( j * 37 + pr * 11 + a ) % 128 );
    vp8::Gen g = g0; const Bytes b = vp8::emit( f, g ); Bytes again;
    for ( int k = 0; k < 2; k++ ) {
      Decoder dec( *base ); const InterFrame fr = parse<InterFrame>( dec, k ? again : b ); mc::transition(); int row = 0, col = 0;
      fr.macroblocks().forall_ij( [&]( const InterFrameMacroblock & mb, unsigned c, unsigned ) { if ( c == 1 ) { const MotionVector mv = split ? mb.Y().at( 1, 1 ).motion_vector() : mb.base_motion_vector(); row = mv.y(); col = mv.x(); } } );
      /* the code keeps vectors in units of the bitstream times two */
      mc::require( row == 2 * ( axis ? other : v ) and col == 2 * ( axis ? v : other ), mc::fmt( "vector (%d,%d) is read as (%d/2,%d/2)", axis ? other : v, axis ? v : other, row, col ) );
      again = fr.serialize( dec.get_state().probability_tables );
    }
  }, 64 );
  /* header fields: every value of every field, serialised and parsed again */
  for ( int key = 1; key >= 0; key-- ) {
    static vp8::Devs devs[ 2 ]; static vp8::Frame bf[ 2 ]; bf[ key ] = key ? vp8::noisy_key( 32, 16, 3 ) : vp8::noisy_inter( 32, 16, 3 ); vp8::header_devs( devs[ key ], bf[ key ], 1 );
    mc::run( key ? "key header fields" : "inter header fields", devs[ key ].size(), [&, key]( uint64_t i ) {
      mc::describe( devs[ key ][ i ].name ); vp8::Frame f = bf[ key ]; devs[ key ][ i ].apply( f ); vp8::Gen g = g0; const Bytes b = vp8::emit( f, g );
      Decoder d1( *base ), d2( *base );
      if ( key ) { const KeyFrame a = parse<KeyFrame>( d1, b ); const Bytes c = a.serialize( d1.get_state().probability_tables ); const KeyFrame e = parse<KeyFrame>( d2, c ); mc::require( a == e and d1.get_state() == d2.get_state() and e.serialize( d2.get_state().probability_tables ) == c, "a header field does not round-trip" ); }
      else { const InterFrame a = parse<InterFrame>( d1, b ); const Bytes c = a.serialize( d1.get_state().probability_tables ); const InterFrame e = parse<InterFrame>( d2, c ); mc::require( a == e and d1.get_state() == d2.get_state() and e.serialize( d2.get_state().probability_tables ) == c, "a header field does not round-trip" ); }
      mc::transition();
    }, 64 );
  }
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv ); strings(); trees(); values();
  return mc::finish( { { "carry_executions_straddling_3_or_more_bytes", mc::S->counters[ 0 ].load() }, { "longest_straddle_bytes", mc::S->counters[ 1 ].load() } } );
}
