/* P01, P02, P03: pictures decoded by the real decoder, against the reference decoder, for every frame
   one (or two) deviations away from textured bases, and for every sequence over an alphabet of frames. */
#include "alf.hh"
#include "deviate.hh"
#include "alphabet.hh"
using namespace vp8;
using std::string; using std::vector;

typedef vector<uint8_t> Bytes;

/* decodes the stream with both; compares every frame */
static void compare( const vector<Bytes> & frames, int w, int h, const std::function<string( size_t )> & name )
{
  if ( const char * dump = getenv( "MC_DUMP" ) ) dump_ivf( dump, frames, w, h );
  if ( mc::prop == "P22" ) {
    /* the other build's digest of the same execution is what these are compared with */
    Decoder d( w, h );
    for ( auto & f : frames ) {
      try { const auto out = d.get_frame_output( Chunk( f ) ); mc::digest( mc::mix( raster_digest( out.second ), mc::mix( out.first, d.get_hash().hash() ) ) ); }
      catch ( const std::exception & e ) { mc::digest( 77 ); }
      mc::transition();
    }
    mc::state( mc::S->w[ mc::self ].digest );
    return;
  }
  Decoder d( w, h ); VpxDecoder v;
  for ( size_t i = 0; i < frames.size(); i++ ) {
    const int e = v.decode( frames[ i ] );
    if ( e ) throw std::logic_error( "reference decoder rejects frame " + std::to_string( i ) + ": " + std::to_string( e ) );
    Picture pv; const bool shown = v.get( pv );
    const auto out = d.get_frame_output( Chunk( frames[ i ] ) );
    mc::transition();
    mc::require( out.first == shown, "frame " + name( i ) + ": shown " + ( out.first ? "yes" : "no" ) + ", expected " + ( shown ? "yes" : "no" ) );
    uint64_t dig = raster_digest( out.second );
    if ( shown ) {
      const string df = picture_diff( picture( out.second ), pv );
      mc::require( df.empty(), "frame " + name( i ) + ": " + df );
      mc::count( 0 );
    }
    mc::state( mc::mix( dig, d.get_hash().hash() ) );
  }
}

struct Base { string name; int w, h; vector<Frame> before; Frame f; };

static vector<Frame> followups( int w, int h, uint64_t seed )
{
  /* an inter frame that reuses everything persistent, then each reference as it is */
  Frame a = noisy_inter( w, h, seed + 501, 2 ); a.refresh_last = false;
  return { a, probe( w, h, 1 ), probe( w, h, 2 ), probe( w, h, 3 ) };
}

static void deviations( const string & space, const Base & b, const Devs & devs, bool pairs, bool follow )
{
  /* the part before the deviating frame is the same in every execution */
  Gen g0; vector<Bytes> prefix; for ( auto & f : b.before ) prefix.push_back( emit( f, g0 ) );
  const vector<Frame> after = follow ? followups( b.w, b.h, 3 ) : vector<Frame>();
  const uint64_t n = pairs ? devs.size() * ( devs.size() - 1 ) / 2 : devs.size() + 1;
  mc::run( space, n, [&]( uint64_t i ) {
    Frame f = b.f; string nme;
    if ( pairs ) {
      uint64_t x = 0, k = i; while ( k >= devs.size() - 1 - x ) { k -= devs.size() - 1 - x; x++; }
      uint64_t y = x + 1 + k;
      devs[ x ].apply( f ); devs[ y ].apply( f ); nme = devs[ x ].name + " + " + devs[ y ].name;
    } else if ( i ) { devs[ i - 1 ].apply( f ); nme = devs[ i - 1 ].name; } else nme = "base";
    mc::describe( b.name + ": " + nme );
    if ( mc::prop == "P22" and not tame( f ) ) { mc::count( 1 ); return; }
    Gen g = g0; vector<Bytes> s = prefix; s.push_back( emit( f, g ) );
    for ( auto & a : after ) s.push_back( emit( a, g ) );
    compare( s, b.w, b.h, [&]( size_t k ) { return k < prefix.size() ? "before" : k == prefix.size() ? string( "deviating" ) : "after+" + std::to_string( k - prefix.size() ); } );
    if ( i % 997 == 5 ) mc::sample( b.name + ": " + nme + " (" + std::to_string( s.size() ) + " frames compared)" );
  }, 16 );
}

/* a small set of alternatives that touch different mechanisms, for pairs */
static Devs boundary( const Frame & f )
{
  Devs all, o; header_devs( all, f, 17 ); mode_devs( all, f, 0, 200 ); mode_devs( all, f, f.mb.size() - 1, 200 ); 
  Devs c; coef_devs( c, 0, false ); coef_devs( c, f.mb.size() - 1, false );
  const size_t want = mc::thorough() ? 420 : 90;
  const size_t st = std::max<size_t>( 1, all.size() * 2 / ( want * 2 - want / 2 ) ), sc = std::max<size_t>( 1, c.size() * 4 / want );
  for ( size_t i = 0; i < all.size(); i += st ) o.push_back( all[ i ] );
  for ( size_t i = 0; i < c.size(); i += sc ) o.push_back( c[ i ] );
  return o;
}

static void key_frames()
{
  const bool T = mc::thorough();
  int k = 0;
  for ( auto sz : vector<std::pair<int, int>> { { 48, 48 }, { 33, 18 }, { 16, 16 }, { 7, 35 } } ) {
    const int w = sz.first, h = sz.second; k++;
    Base b { mc::fmt( "key %dx%d", w, h ), w, h, {}, noisy_key( w, h, 10 + k ) };
    b.f.log2parts = k % 4;
    Devs d; header_devs( d, b.f, T ? 1 : 5 );
    const int last = b.f.mb.size() - 1, mid = b.f.mb.size() / 2;
    for ( int n = 0; n <= last; n++ ) mode_devs( d, b.f, n, 1 );
    for ( int n : { 0, mid, last } ) coef_devs( d, n, T or k == 1 );
    deviations( b.name + " one deviation", b, d, false, true );
    /* the same from a flat, unfiltered base: errors that a filter or clipping would hide */
    Base c = b; c.name += " quiet"; c.f = noisy_key( w, h, 40 + k, 1 ); c.f.level = 0; c.f.q = 4;
    Devs e; for ( int n : { 0, mid, last } ) { mode_devs( e, c.f, n, 1 ); if ( T or n == mid ) coef_devs( e, n, T ); }
    deviations( c.name + " one deviation", c, e, false, false );
    if ( T or k == 1 or k == 2 ) deviations( b.name + " two deviations", b, boundary( b.f ), true, false );
  }
  /* every intra mode of a macroblock x every edge situation x every neighbourhood content */
  {
    const int w = 48, h = 48;
    Frame base = noisy_key( w, h, 99 );
    mc::run( "every luma x chroma mode x position x skip", 5 * 4 * 9 * 2 * 4, [&]( uint64_t i ) {
      mc::Digits d( i ); const int y = d( 5 ), u = d( 4 ), n = d( 9 ), sk = d( 2 ), amp = d( 4 );
      Frame f = noisy_key( w, h, 200 + amp, 1 + 12 * amp ); f.mb[ n ].ymode = y; f.mb[ n ].uvmode = u; f.mb[ n ].skip = sk;
      mc::describe( mc::fmt( "y %d uv %d mb %d skip %d amp %d", y, u, n, sk, amp ) );
      Gen g; compare( { emit( f, g ) }, w, h, []( size_t ) { return "key"; } );
    }, 16 );
    /* subblock modes: every mode of every subblock beside every mode of its left and upper neighbour */
    mc::run( "subblock mode triples", 16 * 1000, [&]( uint64_t i ) {
      mc::Digits d( i ); const int b = d( 16 ), m = d( 10 ), l = d( 10 ), a = d( 10 );
      Frame f = base; f.q = 12; f.level = 0;
      for ( int n : { 4, 3, 1 } ) { f.mb[ n ].ymode = B; f.mb[ n ].skip = false; }
      f.mb[ 4 ].bmodes[ b ] = m;
      if ( b & 3 ) f.mb[ 4 ].bmodes[ b - 1 ] = l; else f.mb[ 3 ].bmodes[ b + 3 ] = l;
      if ( b >= 4 ) f.mb[ 4 ].bmodes[ b - 4 ] = a; else f.mb[ 1 ].bmodes[ b + 12 ] = a;
      mc::describe( mc::fmt( "subblock %d mode %d left %d above %d", b, m, l, a ) );
      Gen g; compare( { emit( f, g ) }, w, h, []( size_t ) { return "key"; } );
    }, 64 );
  }
  /* loop filter: every level x sharpness x (key, inter) on content of several contrasts */
  mc::run( "level x sharpness x contrast", 64 * 8 * 4 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int lv = d( 64 ), sh = d( 8 ), amp = d( 4 ), part = d( 2 );
    Frame f = noisy_key( 48, 32, 300 + amp, 1 + amp * 3 ); f.level = lv; f.sharp = sh; f.q = part ? 60 : 8;
    mc::describe( mc::fmt( "level %d sharpness %d contrast %d q %d", lv, sh, amp, f.q ) );
    Gen g; compare( { emit( f, g ) }, 48, 32, []( size_t ) { return "key"; } );
  }, 32 );
  /* quantizer indices x deltas, all planes */
  mc::run( "quantizer x deltas", 128 * 31, [&]( uint64_t i ) {
    mc::Digits d( i ); const int q = d( 128 ), v = int( d( 31 ) ) - 15;
    Frame f = noisy_key( 33, 18, 5, 3 ); f.q = q; for ( int k = 0; k < 5; k++ ) f.qd[ k ] = OptI( k & 1 ? -v : v );
    f.level = 0;
    mc::describe( mc::fmt( "q %d deltas %d", q, v ) );
    Gen g; compare( { emit( f, g ) }, 33, 18, []( size_t ) { return "key"; } );
  }, 64 );
  /* every size up to 50x50, plus wide, tall and large ones */
  {
    vector<std::pair<int, int>> sizes; const int M = T ? 100 : 50;
    for ( auto s : vector<std::pair<int, int>> { { 1280, 720 }, { 16383, 16 }, { 16, 16383 }, { 640, 480 }, { 1000, 1 }, { 1, 1000 }, { 4400, 17 }, { 17, 4400 } } ) sizes.push_back( s );
    for ( int w = 1; w <= M; w++ ) for ( int h = 1; h <= M; h++ ) sizes.push_back( { w, h } );
    mc::run( "every size", sizes.size(), [&]( uint64_t i ) {
      const int w = sizes[ i ].first, h = sizes[ i ].second;
      mc::describe( mc::fmt( "%dx%d", w, h ) );
      /* one process per picture size: the raster pool is per size */
      pid_t p = fork();
      if ( p == 0 ) {
        mc::child();
        try {
          Gen g; vector<Bytes> s; Frame k = noisy_key( w, h, 7 ); k.log2parts = ( w + h ) % 4; s.push_back( emit( k, g ) );
          s.push_back( emit( noisy_inter( w, h, 8 ), g ) ); s.push_back( emit( noisy_inter( w, h, 9 ), g ) );
          compare( s, w, h, []( size_t k ) { return std::to_string( k ); } );
        } catch ( const std::exception & e ) { mc::add_violation( mc::where( mc::self ) + " :: " + e.what() ); }
        _exit( 0 );
      }
      int st = 0; waitpid( p, &st, 0 );
      mc::require( WIFEXITED( st ) and WEXITSTATUS( st ) == 0, "the decoder crashed" );
    } );
  }
}

static void inter_frames()
{
  const bool T = mc::thorough();
  int k = 0;
  for ( auto sz : vector<std::pair<int, int>> { { 48, 48 }, { 35, 20 }, { 16, 16 } } ) {
    const int w = sz.first, h = sz.second; k++;
    for ( int variant = 0; variant < ( T ? 4 : 2 ); variant++ ) {
      if ( variant and k == 3 ) continue;
      Base b { mc::fmt( "inter %dx%d base %d", w, h, variant ), w, h, {}, noisy_inter( w, h, 60 + k * 10 + variant, 2 ) };
      Frame g2 = noisy_inter( w, h, 21 + k, 5 ); g2.refresh_golden = true; g2.refresh_last = false; for ( auto & m : g2.mb ) if ( m.ref > 1 ) m.ref = 1;
      Frame a2 = noisy_inter( w, h, 22 + k, 5 ); a2.refresh_alt = true; a2.refresh_last = false; for ( auto & m : a2.mb ) if ( m.ref > 1 ) m.ref = 0;
      b.before = { noisy_key( w, h, 20 + k, 6 ), g2, a2 };
      b.f.log2parts = ( k + variant ) % 4;
      if ( variant & 1 ) { b.f.sign_golden = true; }
      if ( variant & 2 ) { b.f.sign_alt = true; b.f.level = 0; }
      const int last = b.f.mb.size() - 1, mid = b.f.mb.size() / 2;
      Devs d; if ( variant == 0 ) header_devs( d, b.f, T ? 1 : 15 );
      for ( int n = 0; n <= last; n++ ) if ( T or n == 0 or n == mid or n == last or n == 2 ) mode_devs( d, b.f, n, T ? 1 : ( n == mid and variant == 0 ) ? 3 : 40 );
      for ( int n : { 0, mid, last } ) if ( T or n == mid ) coef_devs( d, n, T );
      deviations( b.name + " one deviation", b, d, false, variant == 0 );
      if ( T or ( k == 1 and variant == 0 ) ) deviations( b.name + " two deviations", b, boundary( b.f ), true, false );
    }
  }
  /* motion vectors off every edge: one macroblock, whole and split, every combination of displacement classes */
  {
    static const int D[] = { -300, -140, -97, -75, -68, -66, -65, -64, -61, -35, -17, -3, -1, 0, 1, 2, 4, 7, 18, 38, 60, 63, 64, 65, 67, 70, 77, 101, 150, 301 };
    const int nd = sizeof( D ) / sizeof( D[ 0 ] );
    const int w = 40, h = 24;
    Gen g0; vector<Bytes> pre; { Frame k0 = noisy_key( w, h, 71, 8 ); pre.push_back( emit( k0, g0 ) ); }
    const int kinds = T ? 5 : 3;
    mc::run( "vectors across the edges", uint64_t( nd ) * nd * 6 * kinds, [&]( uint64_t i ) {
      mc::Digits d( i ); const int dy = D[ d( nd ) ], dx = D[ d( nd ) ], n = d( 6 ), kind = d( kinds );
      Frame f = noisy_inter( w, h, 72 + kind, 1 ); f.level = kind == 1 ? 20 : 0;
      for ( auto & m : f.mb ) if ( m.ref > 1 ) m.ref = 1;
      MB & m = f.mb[ n ]; m = MB(); m.ref = 1; m.skip = true;
      if ( kind == 0 or kind == 1 ) { m.mvmode = NEW; m.delta.row = dy; m.delta.col = dx; }
      else { m.mvmode = SPLIT; m.split = kind == 2 ? 3 : kind - 3; for ( int p = 0; p < 16; p++ ) { m.sub[ p ] = NEW4; m.subdelta[ p ].row = dy + ( p * 5 ) % 7; m.subdelta[ p ].col = dx - ( p * 3 ) % 8; } }
      mc::describe( mc::fmt( "mb %d vector (%d,%d) kind %d", n, dy, dx, kind ) );
      Gen g = g0; vector<Bytes> s = pre; s.push_back( emit( f, g ) );
      compare( s, w, h, []( size_t k ) { return std::to_string( k ); } );
    }, 64 );
  }
  /* neighbourhoods: every combination of the three neighbours' kinds and vectors, and every mode using them */
  {
    const int w = 48, h = 32; /* target: macroblock 4 (row 1, column 1); neighbours 0, 1, 3 */
    Gen g0; vector<Bytes> pre; pre.push_back( emit( noisy_key( w, h, 81, 8 ), g0 ) );
    /* kinds: intra, zero, vector a, vector b, vector a on golden, split ending in a, -a on golden */
    const int K = 7;
    auto set = []( MB & m, int kind, const MB & tex ) {
      m = tex; m.ref = 1; m.mvmode = NEW; m.delta = MV();
      switch ( kind ) {
      case 0: m.ref = 0; m.ymode = TM; break;
      case 1: m.mvmode = ZERO; break;
      case 2: m.delta.row = 6; m.delta.col = -9; break;
      case 3: m.delta.row = -30; m.delta.col = 5; break;
      case 4: m.ref = 2; m.delta.row = 6; m.delta.col = -9; break;
      case 5: m.mvmode = SPLIT; m.split = 2; for ( int p = 0; p < 4; p++ ) { m.sub[ p ] = NEW4; m.subdelta[ p ].row = p == 3 ? 6 : p; m.subdelta[ p ].col = p == 3 ? -9 : 2 * p; } break;
      case 6: m.ref = 2; m.delta.row = -6; m.delta.col = 9; break;
      }
    };
    mc::run( "neighbouring vectors", uint64_t( K ) * K * K * 6 * 3 * 4, [&]( uint64_t i ) {
      mc::Digits d( i ); const int a = d( K ), l = d( K ), al = d( K ), mode = d( 6 ), ref = 1 + d( 3 ), sb = d( 4 );
      Frame f = noisy_inter( w, h, 82, 1 ); f.level = 0; f.sign_golden = sb & 1; f.sign_alt = sb >> 1;
      MB plain; plain.skip = true;
      for ( auto & m : f.mb ) { m = plain; m.ref = 1; m.mvmode = NEAREST; }
      set( f.mb[ 0 ], al, plain ); set( f.mb[ 1 ], a, plain ); set( f.mb[ 3 ], l, plain );
      MB & m = f.mb[ 4 ]; m.ref = ref; m.mvmode = mode < 5 ? mode : int( SPLIT ); m.split = mode == 5 ? 3 : 0;
      m.delta.row = 3; m.delta.col = 2;
      for ( int p = 0; p < 16; p++ ) { m.sub[ p ] = ( p + a + l ) % 4; m.subdelta[ p ].row = p; m.subdelta[ p ].col = -p; }
      f.mb[ 5 ].mvmode = NEAR;
      mc::describe( mc::fmt( "above %d left %d aboveleft %d mode %d ref %d sign %d", a, l, al, mode, ref, sb ) );
      Gen g = g0; vector<Bytes> s = pre; s.push_back( emit( f, g ) );
      compare( s, w, h, []( size_t k ) { return std::to_string( k ); } );
    }, 64 );
  }
  mc::run( "inter: level x sharpness x contrast", 64 * 8 * 3, [&]( uint64_t i ) {
    mc::Digits d( i ); const int lv = d( 64 ), sh = d( 8 ), amp = d( 3 );
    Gen g; vector<Bytes> s { emit( noisy_key( 48, 32, 400 + amp, 2 + 3 * amp ), g ) };
    Frame f = noisy_inter( 48, 32, 410 + amp, 1 + amp * 3 ); f.level = lv; f.sharp = sh; s.push_back( emit( f, g ) );
    mc::describe( mc::fmt( "level %d sharpness %d contrast %d", lv, sh, amp ) );
    compare( s, 48, 32, []( size_t k ) { return std::to_string( k ); } );
  }, 32 );
}

/* P03: what one frame leaves for the next ones */
static void sequences()
{
  const bool T = mc::thorough();
  const int w = 32, h = 32;
  const vector<std::pair<string, Frame>> A = alphabet( w, h ); const Frame K2 = noisy_key( w, h, 503, 5 );
  const size_t n = A.size();
  /* what the sequence left behind, made visible */
  vector<Frame> tail; {
    Frame a = noisy_inter( w, h, 520, 3 ); a.seg = true; a.lf_delta = true; a.refresh_last = false; tail.push_back( a );
    for ( int r = 1; r < 4; r++ ) tail.push_back( probe( w, h, r ) );
  }
  auto go = [&]( const string & space, int depth, const vector<size_t> & letters ) {
    uint64_t total = 1; for ( int i = 0; i < depth; i++ ) total *= letters.size();
    mc::run( space, total, [&]( uint64_t i ) {
      mc::Digits d( i ); Gen g; vector<Bytes> s; vector<string> names; string all;
      auto push = [&]( const string & nme, const Frame & f ) { s.push_back( emit( f, g ) ); names.push_back( nme ); };
      for ( int k = 0; k < depth; k++ ) {
        const auto & a = A[ letters[ d( letters.size() ) ] ];
        if ( k == 0 and not a.second.key ) push( "initial key", K2 );
        push( a.first, a.second ); all += ( k ? " ; " : "" ) + a.first;
      }
      mc::describe( all );
      for ( auto & f : tail ) push( "tail", f );
      compare( s, w, h, [&]( size_t k ) { return std::to_string( k ) + " (" + names[ k ] + ")"; } );
      if ( i % 4999 == 17 ) mc::sample( all );
    }, 32 );
  };
  vector<size_t> L; for ( size_t i = 0; i < n; i++ ) L.push_back( i );
  go( "sequences of 3 frames", 3, L );
  if ( T ) go( "sequences of 4 frames", 4, L );
  vector<size_t> S; for ( size_t i = 0; i < n; i++ ) if ( A[ i ].first.find( "seg" ) == 0 or A[ i ].first.find( "lf" ) == 0 or A[ i ].first == "inter" or A[ i ].first == "key" or A[ i ].first == "key seg" ) S.push_back( i );
  go( "sequences of segmentation and filter frames", T ? 5 : 4, S );
  /* reference updates: every combination of updates in two (thorough: three) successive frames */
  auto refs = [&]( const string & space, int depth ) {
    uint64_t total = 1; for ( int i = 0; i < depth; i++ ) total *= 32;
    mc::run( space, total * 2, [&]( uint64_t i ) {
      mc::Digits d( i ); const int hidden = d( 2 );
      Gen g; vector<Bytes> s; string all;
      Frame k0 = K2; s.push_back( emit( k0, g ) );
      { Frame x = noisy_inter( w, h, 530, 4 ); x.refresh_golden = true; x.refresh_last = false; s.push_back( emit( x, g ) ); }
      { Frame x = noisy_inter( w, h, 531, 4 ); x.refresh_alt = true; x.refresh_last = false; s.push_back( emit( x, g ) ); }
      for ( int k = 0; k < depth; k++ ) {
        Frame x = noisy_inter( w, h, 532 + k, 4 ); const int gg = d( 4 ), aa = d( 4 ), ll = d( 2 );
        x.refresh_golden = gg == 3; x.copy_golden = gg % 3; x.refresh_alt = aa == 3; x.copy_alt = aa % 3; x.refresh_last = ll; x.show = not hidden;
        all += mc::fmt( "golden %d altref %d last %d; ", gg, aa, ll ); s.push_back( emit( x, g ) );
      }
      mc::describe( all + ( hidden ? "hidden" : "" ) );
      for ( int r = 1; r < 4; r++ ) s.push_back( emit( probe( w, h, r ), g ) );
      compare( s, w, h, []( size_t k ) { return std::to_string( k ); } );
    }, 32 );
  };
  refs( "reference updates, two frames", 2 );
  if ( T ) refs( "reference updates, three frames", 3 );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  if ( mc::prop == "P01" ) key_frames();
  else if ( mc::prop == "P02" ) inter_frames();
  else if ( mc::prop == "P22" ) { key_frames(); inter_frames(); }
  else sequences();
  return mc::finish( { { "pictures_compared_with_reference_decoder", mc::S->counters[ 0 ].load() }, { "frames_with_coefficients_beyond_the_transforms_range_left_out", mc::S->counters[ 1 ].load() } } );
}
