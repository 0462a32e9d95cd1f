/* P06, P07, P09, P10: decoder states as values, parsed frames, saved states and fingerprints. */
#include <set>
#include "encpics.hh"
#include "corpus.hh"
#include "frame.hh"
#include "player.hh"
#include "decoder_state.hh"
#include "enc_state_serializer.hh"
#include <memory>
#include <map>
#include <sys/syscall.h>
using std::string; using std::vector;
typedef vector<uint8_t> Bytes;

/* everything a state holds that affects later decoding, independently of the code's own comparison and hash */
static uint64_t state_digest( const DecoderState & s )
{
  uint64_t h = mc::mix( s.width, s.height );
  const ProbabilityTables & p = s.probability_tables;
  for ( unsigned i = 0; i < BLOCK_TYPES; i++ ) for ( unsigned j = 0; j < COEF_BANDS; j++ ) for ( unsigned k = 0; k < PREV_COEF_CONTEXTS; k++ ) for ( unsigned l = 0; l < ENTROPY_NODES; l++ ) h = mc::mix( h, p.coeff_probs.at( i ).at( j ).at( k ).at( l ) );
  for ( unsigned i = 0; i < num_y_modes - 1; i++ ) h = mc::mix( h, p.y_mode_probs.at( i ) );
  for ( unsigned i = 0; i < num_uv_modes - 1; i++ ) h = mc::mix( h, p.uv_mode_probs.at( i ) );
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < MV_PROB_CNT; j++ ) h = mc::mix( h, p.motion_vector_probs.at( i ).at( j ) );
  h = mc::mix( h, s.segmentation.initialized() );
  if ( s.segmentation.initialized() ) {
    const Segmentation & g = s.segmentation.get(); h = mc::mix( h, g.absolute_segment_adjustments );
    for ( unsigned i = 0; i < num_segments; i++ ) { h = mc::mix( h, uint8_t( g.segment_quantizer_adjustments.at( i ) ) ); h = mc::mix( h, uint8_t( g.segment_filter_adjustments.at( i ) ) ); }
    for ( unsigned y = 0; y < g.map.height(); y++ ) for ( unsigned x = 0; x < g.map.width(); x++ ) h = mc::mix( h, g.map.at( x, y ) );
  }
  h = mc::mix( h, s.filter_adjustments.initialized() );
  if ( s.filter_adjustments.initialized() ) for ( unsigned i = 0; i < 4; i++ ) { h = mc::mix( h, uint8_t( s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) ) ); h = mc::mix( h, uint8_t( s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) ) ); }
  return h;
}
static uint64_t digest( const Decoder & d ) { return mc::mix( state_digest( d.get_state() ), refs_digest( d.get_references() ) ); }

/* ---------------- P06 ---------------- */
struct Slot { std::unique_ptr<Decoder> d; uint32_t hist = 0; int len = 0; };
struct Held { RasterHandle r; uint64_t dig; size_t hash; string what; };

static void p06()
{
  const bool T = mc::thorough();
  const int W = 32, H = 32;
  /* letters; a frame's bytes depend on the probabilities that the history before it left */
  static vector<std::pair<string, vp8::Frame>> F;
  {
    const auto A = vp8::alphabet( W, H );
    auto want = [&]( const char * n ) { for ( auto & a : A ) if ( a.first == n ) F.push_back( a ); };
    for ( const char * n : { "key seg", "golden", "altref hidden", "seg map+data", "probs" } ) want( n );
    if ( T ) want( "lf update" );
  }
  const int nf = F.size();
  /* histories as numbers in base nf+1; what each leads to, found alone in a process of its own */
  struct Exp { uint64_t state, out, hash; bool shown; };
  uint64_t nh = 1; for ( int i = 0; i < ( T ? 6 : 5 ); i++ ) nh *= nf + 1;
  static Exp * E = nullptr;
  E = static_cast<Exp *>( mmap( nullptr, sizeof( Exp ) * nh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  const int maxlen = T ? 6 : 5;
  static Bytes key; { vp8::Gen g; key = vp8::emit( vp8::noisy_key( W, H, 503, 5 ), g ); }
  auto digits = [=]( uint64_t h ) { vector<int> v; while ( h ) { v.push_back( h % ( nf + 1 ) - 1 ); h /= nf + 1; } std::reverse( v.begin(), v.end() ); return v; };
  vector<uint64_t> hs; for ( uint64_t h = 0; h < nh; h++ ) { bool ok = true; for ( int d : digits( h ) ) ok = ok and d >= 0; if ( ok and (int) digits( h ).size() <= maxlen ) hs.push_back( h ); }
  static vector<Bytes> B; B.resize( nh ); /* the frame that ends each history */
  for ( uint64_t h : hs ) { vp8::Gen g; vp8::emit( vp8::noisy_key( W, H, 503, 5 ), g ); for ( int f : digits( h ) ) B[ h ] = vp8::emit( F[ f ].second, g ); }
  auto frames = [=]( uint64_t h ) { vector<Bytes> v; for ( ; h; h /= nf + 1 ) v.push_back( B[ h ] ); std::reverse( v.begin(), v.end() ); return v; };
  auto play = [&]( uint64_t h ) {
    Decoder d( W, H ); auto o = d.get_frame_output( Chunk( key ) );
    for ( auto & f : frames( h ) ) o = d.get_frame_output( Chunk( f ) );
    E[ h ] = { digest( d ), raster_digest( o.second ), d.get_hash().hash(), o.first };
  };
  /* the table is also checked against the reference decoder */
  auto table = [&]( uint64_t i ) {
    mc::describe( "straight-line history " + std::to_string( hs[ i ] ) );
    mc::isolated( [&] {
      play( hs[ i ] );
      VpxDecoder v; Picture p; v.decode( key ); v.get( p ); bool shown = true;
      for ( auto & f : frames( hs[ i ] ) ) { if ( v.decode( f ) ) throw std::logic_error( "reference rejects" ); shown = v.get( p ); }
      Decoder d( W, H ); auto o = d.get_frame_output( Chunk( key ) ); for ( auto & f : frames( hs[ i ] ) ) o = d.get_frame_output( Chunk( f ) );
      mc::require( o.first == shown and ( not shown or picture_diff( picture( o.second ), p ).empty() ), "a history decodes differently from the reference decoder" );
    } );
    mc::transition();
  };
  if ( mc::replaying ) for ( uint64_t h : hs ) play( h ); else mc::run( "histories alone", hs.size(), table, 4 );
  auto explore = [&]( const string & space, int depth, bool player ) {
    const int NOPS = 2 * nf + 9;
    uint64_t total = 1; for ( int i = 0; i < depth; i++ ) total *= NOPS;
    static const Decoder * base = nullptr; { static Decoder b( W, H ); if ( not base ) { b.get_frame_output( Chunk( key ) ); base = &b; } }
    static const VP8Raster pic = [&] { VP8Raster r( W, H ); r.copy_from( input( 3, W, H ) ); return r; }();
    mc::run( space, total, [&, depth, player]( uint64_t i ) {
      mc::Digits d( i ); vector<int> ops; for ( int k = 0; k < depth; k++ ) ops.push_back( d( NOPS ) );
      string nme; Slot s[ 2 ], saved; vector<Held> held; std::unique_ptr<FramePlayer> pl;
      for ( auto & x : s ) { x.d.reset( new Decoder( *base ) ); }
      saved.d.reset( new Decoder( *base ) );
      if ( player ) { pl.reset( new FramePlayer( W, H ) ); pl->decode( Chunk( key ) ); }
      auto check = [&]( const string & what ) {
        for ( int k = 0; k < 3; k++ ) { Slot & x = k < 2 ? s[ k ] : saved; if ( not x.d ) continue; const Decoder & dd = ( player and k == 0 ) ? pl->current_decoder() : *x.d;
          mc::require( digest( dd ) == E[ x.hist ].state, what + mc::fmt( ": decoder %d (history %u) is not in the state its own history gives", k, x.hist ) );
          mc::require( dd.get_hash().hash() == E[ x.hist ].hash, what + mc::fmt( ": decoder %d has not the fingerprint its own history gives", k ) ); }
        for ( auto & x : held ) { mc::require( raster_digest( x.r ) == x.dig, what + ": a picture handed out earlier (" + x.what + ") has changed" ); mc::require( x.r.hash() == x.hash, what + ": the hash of a picture handed out earlier has changed" ); }
      };
      for ( int k = 0; k < depth; k++ ) {
        const int o = ops[ k ]; string on;
        if ( o < 2 * nf ) {
          const int w = o / nf, f = o % nf; on = mc::fmt( "decode%d(%s)", w, F[ f ].first.c_str() ); nme += on + "; "; mc::describe( nme );
          s[ w ].hist = s[ w ].hist * ( nf + 1 ) + f + 1; s[ w ].len++;
          if ( player and w == 0 ) {
            auto r = pl->decode( Chunk( B[ s[ w ].hist ] ) ); mc::require( r.initialized() == E[ s[ w ].hist ].shown, on + ": shown flag" );
            if ( r.initialized() ) { mc::require( raster_digest( r.get() ) == E[ s[ w ].hist ].out, on + ": picture differs" ); held.push_back( { r.get(), E[ s[ w ].hist ].out, r.get().hash(), on } ); }
          } else {
            auto r = s[ w ].d->get_frame_output( Chunk( B[ s[ w ].hist ] ) );
            mc::require( r.first == E[ s[ w ].hist ].shown, on + ": shown flag differs from the decoder alone" );
            mc::require( raster_digest( r.second ) == E[ s[ w ].hist ].out, on + ": the picture differs from the one the decoder alone produces" );
            held.push_back( { r.second, E[ s[ w ].hist ].out, r.second.hash(), on } );
          }
        } else switch ( o - 2 * nf ) {
          case 0: on = "1 := copy of 0"; s[ 1 ].hist = s[ 0 ].hist; *s[ 1 ].d = player ? pl->current_decoder() : *s[ 0 ].d; break;
          case 1: on = "0 := copy of 1"; s[ 0 ].hist = s[ 1 ].hist; if ( player ) pl->set_decoder( *s[ 1 ].d ); else *s[ 0 ].d = *s[ 1 ].d; break;
          case 2: on = "save 0"; saved.hist = s[ 0 ].hist; saved.d.reset( new Decoder( player ? pl->current_decoder() : *s[ 0 ].d ) ); break;
          case 3: on = "reload 0"; s[ 0 ].hist = saved.hist; if ( player ) pl->set_decoder( *saved.d ); else s[ 0 ].d.reset( new Decoder( *saved.d ) ); break;
          case 4: on = "reload 1"; s[ 1 ].hist = saved.hist; s[ 1 ].d.reset( new Decoder( *saved.d ) ); break;
          case 5: on = "renew 1"; s[ 1 ].hist = 0; s[ 1 ].d.reset( new Decoder( W, H ) ); s[ 1 ].d->get_frame_output( Chunk( key ) ); break;
          case 6: on = "drop pictures"; held.clear(); break;
          case 7: { on = "encode from 1"; Encoder e( *s[ 1 ].d, false, REALTIME_QUALITY ); e.encode_with_quantizer( pic, 30 ); break; }
          case 8: { on = "use a copy of 0 and drop it"; for ( int f = 0; f < nf; f++ ) { Decoder c( player ? pl->current_decoder() : *s[ 0 ].d ); c.get_frame_output( Chunk( B[ s[ 0 ].hist * ( nf + 1 ) + f + 1 ] ) ); } break; }
        }
        if ( o >= 2 * nf ) { nme += on + "; "; mc::describe( nme ); }
        mc::transition(); check( "after " + on );
        mc::state( mc::mix( mc::mix( s[ 0 ].hist, s[ 1 ].hist ), mc::mix( saved.hist, held.size() ) ) );
      }
      if ( i % 30011 == 11 ) mc::sample( nme );
    }, 64 );
  };
  explore( "operations on two decoders", T ? 5 : 4, false );
  explore( "operations on a player and a decoder", T ? 5 : 3, true );
}

/* ---------------- P07 ---------------- */
struct Applied { bool shown; uint64_t out, state; size_t hash; Bytes again; };
template <class FrameType> static Bytes reserialise( Decoder & d, const UncompressedChunk & u, Applied & a )
{
  const FrameType f = d.parse_frame<FrameType>( u );
  const Bytes b = f.serialize( d.get_state().probability_tables );
  auto o = d.decode_frame( f );
  a = { o.first, raster_digest( o.second ), digest( d ), d.get_hash().hash(), b };
  return b;
}
static Applied apply( const Decoder & before, const Bytes & b )
{
  Decoder d( before ); Applied a; const UncompressedChunk u = d.decompress_frame( Chunk( b ) );
  if ( u.key_frame() ) reserialise<KeyFrame>( d, u, a ); else reserialise<InterFrame>( d, u, a );
  return a;
}
static void round_trip( const Decoder & before, const vector<Bytes> & prefix, const Bytes & b, bool exact, bool ref )
{
  mc::transition();
  const Applied a = apply( before, b ), c = apply( before, a.again );
  mc::require( a.shown == c.shown, "the serialised frame's shown flag differs" );
  mc::require( a.out == c.out, "the serialised frame decodes to another picture" );
  mc::require( a.state == c.state and a.hash == c.hash, "the serialised frame leads to another state" );
  mc::require( c.again == a.again, "serialising once more gives other bytes" );
  mc::require( not exact or a.again == b, "a frame the serialiser produced is not reproduced byte for byte" );
  mc::state( mc::hash_bytes( a.again.data(), a.again.size(), a.state ) );
  if ( ref ) {
    VpxDecoder v, x; Picture p, q; bool sp = false, sq = false;
    for ( auto & f : prefix ) { v.decode( f ); v.get( p ); x.decode( f ); x.get( q ); }
    if ( v.decode( b ) ) throw std::logic_error( "reference rejects the original frame" );
    sp = v.get( p );
    mc::require( x.decode( a.again ) == 0, "a conforming decoder rejects the serialised frame" );
    sq = x.get( q );
    mc::require( sp == sq and ( not sp or p == q ), "a conforming decoder shows another picture for the serialised frame" );
    /* and the references, as a conforming decoder holds them */
    vp8::Gen g;
    for ( int r = 1; r < 4; r++ ) { vp8::Gen gg = g; const Bytes pr = vp8::emit( vp8::probe( before.get_width(), before.get_height(), r ), gg ); v.decode( pr ); x.decode( pr ); v.get( p ); x.get( q ); mc::require( p == q, "a conforming decoder keeps another reference after the serialised frame" ); }
  }
}
static void p07()
{
  const bool T = mc::thorough();
  for ( auto sz : vector<std::pair<int, int>> { { 48, 48 }, { 33, 18 } } ) {
    if ( mc::only == "small" and sz.first == 48 ) continue;
    for ( auto & c : vp8::corpora( sz.first, sz.second, T ? 1 : 9, T ? 1 : 3, T ) )
      mc::run( c.name + " one deviation", c.size(), [&]( uint64_t i ) {
        mc::describe( c.label( i ) );
        Decoder d( c.w, c.h ); for ( auto & f : c.prefix ) d.get_frame_output( Chunk( f ) );
        round_trip( d, c.prefix, c.frame( i ), false, true );
        if ( i % 1999 == 3 ) mc::sample( c.label( i ) );
      }, 16 );
  }
  if ( mc::only == "small" ) return;
  const int W = 32, H = 32; const auto A = vp8::alphabet( W, H );
  const int depth = T ? 3 : 2; uint64_t n = 1; for ( int i = 0; i < depth; i++ ) n *= A.size();
  mc::run( "sequences", n, [&]( uint64_t i ) {
    const vp8::Stream s = vp8::sequence( i, depth, A, W, H ); string nme; for ( auto & x : s.names ) nme += x + "; "; mc::describe( nme );
    Decoder d( W, H ); vector<Bytes> pre, pre2; VpxDecoder v, x; Decoder d2( W, H );
    for ( auto & f : s.frames ) {
      round_trip( d, pre, f, false, false );
      /* the whole stream serialised, frame by frame */
      const Applied a = apply( d2, f ); const auto r = d2.get_frame_output( Chunk( a.again ) ); d.get_frame_output( Chunk( f ) );
      if ( v.decode( f ) ) throw std::logic_error( "reference rejects" );
      mc::require( x.decode( a.again ) == 0, "a conforming decoder rejects the serialised stream" );
      Picture p, q; const bool sp = v.get( p ), sq = x.get( q ); mc::require( sp == sq and sp == r.first and ( not sp or p == q ), "the serialised stream shows another picture" );
      mc::require( d == d2 and digest( d ) == digest( d2 ), "the serialised stream leads to another state" );
      pre.push_back( f );
    }
  }, 8 );
  mc::run( "encoded frames", vp8::N_STARTS * N_PICS * 6 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int st = d( vp8::N_STARTS ), pic = d( N_PICS ), q = d( 6 ) * 25, ql = d( 2 );
    mc::describe( mc::fmt( "state %d, %s at quantizer %d, %s", st, pic_name( pic ), q, ql ? "realtime" : "best" ) );
    Decoder dec( 50, 36 ); const auto pre = vp8::start_bytes( st, 50, 36 ); for ( auto & f : pre ) dec.get_frame_output( Chunk( f ) );
    Encoder e( dec, false, ql ? REALTIME_QUALITY : BEST_QUALITY );
    round_trip( dec, pre, e.encode_with_quantizer( input( pic, 50, 36 ), q ), true, true );
    Encoder k( 50, 36, false, ql ? REALTIME_QUALITY : BEST_QUALITY );
    round_trip( dec, pre, k.encode_with_quantizer( input( pic, 50, 36 ), q ), true, true );
  }, 8 );
}

/* ---------------- P09 ---------------- */
static Bytes saved( const Decoder & d )
{
  EncoderStateSerializer o; d.serialize( o );
  char * p = nullptr; size_t n = 0; FILE * f = open_memstream( &p, &n ); o.write( f ); fclose( f );
  Bytes b( p, p + n ); free( p ); return b;
}
/* a file with these contents, under a name, in memory */
struct MemFile {
  int fd; string name;
  explicit MemFile( const Bytes & b ) : fd( syscall( SYS_memfd_create, "state", 0 ) ), name() { if ( fd < 0 or ( b.size() and write( fd, b.data(), b.size() ) != (ssize_t) b.size() ) ) throw std::runtime_error( "memfd" ); name = mc::fmt( "/proc/self/fd/%d", fd ); }
  ~MemFile() { close( fd ); }
};
static Decoder loaded( const Bytes & b ) { MemFile f( b ); return EncoderStateDeserializer::build<Decoder>( f.name ); }
static Decoder only_last( const Decoder & d ) { References r = d.get_references(); r.golden = r.last; r.alternative = r.last; return Decoder( d.get_state(), r ); }

static void same( Decoder a, Decoder b, const vector<Bytes> & next, const string & what )
{
  mc::require( state_digest( a.get_state() ) == state_digest( b.get_state() ) and a.get_state() == b.get_state(), what + ": probabilities, segmentation or filter adjustments differ" );
  mc::require( refs_digest( a.get_references() ) == refs_digest( b.get_references() ), what + ": pictures differ" );
  mc::require( a == b and a.minihash() == b.minihash() and a.get_hash() == b.get_hash(), what + ": fingerprints differ" );
  for ( size_t i = 0; i < next.size(); i++ ) {
    auto x = a.get_frame_output( Chunk( next[ i ] ) ), y = b.get_frame_output( Chunk( next[ i ] ) ); mc::transition();
    mc::require( x.first == y.first and raster_digest( x.second ) == raster_digest( y.second ), what + mc::fmt( ": following frame %zu decodes differently", i ) );
    mc::require( digest( a ) == digest( b ) and a == b, what + mc::fmt( ": state differs after following frame %zu", i ) );
  }
}
static void p09()
{
  const bool T = mc::thorough();
  const int W = 32, H = 32; const auto A = vp8::alphabet( W, H );
  vector<Bytes> next; { vp8::Gen g; for ( auto & a : A ) if ( not a.second.key ) next.push_back( vp8::emit( a.second, g ) ); }
  const int depth = T ? 3 : 2; uint64_t n = 1; for ( int i = 0; i < depth; i++ ) n *= A.size();
  auto check = [&]( const Decoder & d, const vector<Bytes> & nx ) {
    const Bytes b = saved( d ); const Decoder l = loaded( b );
    same( only_last( d ), l, nx, "loaded" );
    mc::require( saved( l ) == b, "a loaded state saves to another file" );
    mc::require( l.get_width() == d.get_width() and l.get_height() == d.get_height(), "loaded state has another size" );
    mc::state( mc::hash_bytes( b.data(), b.size() ) );
    /* through players */
    MemFile f( b ); EncoderStateDeserializer id( f.name ); FramePlayer p( id ); mc::require( p.current_decoder() == l, "a player resumed from the file differs" );
    EncoderStateSerializer o; p.serialize( o ); const string out = f.name; o.write( out ); Bytes c( b.size() + 1 ); const ssize_t k = pread( f.fd, c.data(), c.size(), 0 ); c.resize( k < 0 ? 0 : k ); mc::require( c == b, "a player saves another file" );
  };
  if ( mc::only.empty() ) {
  mc::run( "states after sequences", n, [&]( uint64_t i ) {
    const vp8::Stream s = vp8::sequence( i, depth, A, W, H ); string nme; for ( auto & x : s.names ) nme += x + "; "; mc::describe( nme );
    Decoder d( W, H ); for ( auto & f : s.frames ) { d.get_frame_output( Chunk( f ) ); }
    check( d, next ); if ( i % 99 == 1 ) mc::sample( nme );
  }, 8 );
  mc::run( "states of every size", vp8::N_STARTS * ( T ? 34 * 34 : 18 * 18 ), [&]( uint64_t i ) {
    mc::Digits d( i ); const int st = d( vp8::N_STARTS ), m = T ? 34 : 18, w = 1 + d( m ), h = 1 + d( m ); mc::describe( mc::fmt( "state %d %dx%d", st, w, h ) );
    mc::isolated( [&] { Decoder dec( w, h ); for ( auto & f : vp8::start_bytes( st, w, h ) ) dec.get_frame_output( Chunk( f ) );
      vp8::Gen g; check( dec, { vp8::emit( vp8::noisy_inter( w, h, 3 ), g ), vp8::emit( vp8::probe( w, h, 2 ), g ), vp8::emit( vp8::probe( w, h, 3 ), g ) } ); } );
  }, 4 );
  /* sizes at which counts and positions leave 16 bits */
  static const int BIG[][ 2 ] = { { 255, 257 }, { 256, 256 }, { 640, 360 }, { 1030, 40 }, { 40, 1030 }, { 17, 4400 }, { 4400, 17 }, { 1280, 720 } }; const int NB = T ? 8 : 7;
  mc::run( "states of large sizes", vp8::N_STARTS * NB, [&]( uint64_t i ) {
    mc::Digits d( i ); const int * z = BIG[ d( NB ) ], w = z[ 0 ], h = z[ 1 ], st = d( vp8::N_STARTS ); mc::describe( mc::fmt( "state %d %dx%d", st, w, h ) );
    mc::isolated( [&] { Decoder dec( w, h ); for ( auto & f : vp8::start_bytes( st, w, h ) ) dec.get_frame_output( Chunk( f ) );
      vp8::Gen g; check( dec, { vp8::emit( vp8::noisy_inter( w, h, 3 ), g ), vp8::emit( vp8::probe( w, h, 2 ), g ) } ); } );
  }, 1 );
  }
  /* damage: every truncation, every byte of the file replaced, bytes appended */
  const int w = 18, h = 17; static const int ST[] = { 1, 3, 5, 4, 7 };
  static vector<Bytes> files; static vector<uint64_t> digs;
  for ( int st : ST ) { Decoder d( w, h ); mc::isolated( [] {} ); Bytes b; {
      int pp[ 2 ]; if ( pipe( pp ) ) exit( 2 ); /* made in a process of its own, so that the pool of this one stays empty */
      pid_t p = fork(); if ( p == 0 ) { mc::child(); Decoder dd( w, h ); for ( auto & f : vp8::start_bytes( st, w, h ) ) dd.get_frame_output( Chunk( f ) ); const Bytes x = saved( dd ); size_t k = 0; while ( k < x.size() ) { ssize_t r = write( pp[ 1 ], &x[ k ], x.size() - k ); if ( r <= 0 ) break; k += r; } _exit( 0 ); }
      close( pp[ 1 ] ); uint8_t buf[ 4096 ]; ssize_t r; while ( ( r = read( pp[ 0 ], buf, sizeof buf ) ) > 0 ) b.insert( b.end(), buf, buf + r ); close( pp[ 0 ] ); waitpid( p, nullptr, 0 ); }
    files.push_back( b ); }
  const int NF = T ? 5 : 3;
  for ( int k = 0; k < NF; k++ ) {
    const Bytes & b = files[ k ];
    auto refused = [&]( const Bytes & x, const string & what, bool may ) {
      mc::transition();
      try {
        const Decoder d = loaded( x );
        mc::require( may, what + ": accepted" );
        mc::require( saved( d ) == x, what + ": accepted, but as something else (saving it again gives another file)" );
        const VP8Raster & e = d.example_raster();
        mc::require( d.get_width() == e.display_width() and d.get_height() == e.display_height(), what + ": accepted with a picture of another size than the state" );
        if ( d.get_state().segmentation.initialized() ) { const auto & m = d.get_state().segmentation.get().map; mc::require( m.width() * 16 >= e.width() and m.height() * 16 >= e.height(), what + ": accepted with a segment map that does not cover the picture" ); }
        mc::count( 1 );
      } catch ( const mc::Violation & ) { throw; } catch ( const std::bad_alloc & ) { mc::fail( what + ": out of memory" ); } catch ( const std::exception & ) { mc::count( 2 ); }
    };
    mc::run( mc::fmt( "state file %d, every truncation and extension", k ), b.size() + 8, [&]( uint64_t i ) {
      Bytes x = b; if ( i < b.size() ) x.resize( i ); else x.insert( x.end(), i - b.size() + 1, uint8_t( i * 37 ) );
      mc::describe( mc::fmt( "%zu of %zu bytes", x.size(), b.size() ) ); refused( x, mc::fmt( "%zu of %zu bytes", x.size(), b.size() ), false );
    }, 16 );
    const int nv = T ? 255 : 11;
    mc::run( mc::fmt( "state file %d, every byte replaced", k ), b.size() * nv, [&]( uint64_t i ) {
      const size_t pos = i / nv; const int v = i % nv; Bytes x = b; const uint8_t o = x[ pos ];
      x[ pos ] = T ? o + 1 + v : v < 8 ? o ^ ( 1 << v ) : v == 8 ? o + 1 : v == 9 ? o - 1 : ~o;
      mc::describe( mc::fmt( "byte %zu: %d -> %d", pos, o, x[ pos ] ) ); refused( x, mc::fmt( "byte %zu of %zu changed from %d to %d", pos, b.size(), o, x[ pos ] ), true );
    }, 64 );
  }
}

/* ---------------- P10 ---------------- */
static void p10()
{
  const bool T = mc::thorough();
  const int W = 32, H = 32;
  struct V { string name; std::function<Decoder( const Decoder & )> f; };
  static vector<V> vs;
  auto st = []( const string & n, std::function<void( DecoderState & )> f ) { vs.push_back( { n, [=]( const Decoder & d ) { DecoderState s = d.get_state(); f( s ); return Decoder( s, d.get_references() ); } } ); };
  const vector<int> add = T ? [] { vector<int> v; for ( int i = 1; i < 256; i++ ) v.push_back( i ); return v; }() : vector<int> { 1, 255, 128, 37 };
  for ( int x : add ) {
    for ( unsigned i = 0; i < BLOCK_TYPES; i++ ) for ( unsigned j = 0; j < COEF_BANDS; j++ ) for ( unsigned k = 0; k < PREV_COEF_CONTEXTS; k++ ) for ( unsigned l = 0; l < ENTROPY_NODES; l++ )
      st( mc::fmt( "coefficient probability %u,%u,%u,%u + %d", i, j, k, l, x ), [=]( DecoderState & s ) { s.probability_tables.coeff_probs.at( i ).at( j ).at( k ).at( l ) += x; } );
    for ( unsigned i = 0; i < num_y_modes - 1; i++ ) st( mc::fmt( "luma mode probability %u + %d", i, x ), [=]( DecoderState & s ) { s.probability_tables.y_mode_probs.at( i ) += x; } );
    for ( unsigned i = 0; i < num_uv_modes - 1; i++ ) st( mc::fmt( "chroma mode probability %u + %d", i, x ), [=]( DecoderState & s ) { s.probability_tables.uv_mode_probs.at( i ) += x; } );
    for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < MV_PROB_CNT; j++ ) st( mc::fmt( "vector probability %u,%u + %d", i, j, x ), [=]( DecoderState & s ) { s.probability_tables.motion_vector_probs.at( i ).at( j ) += x; } );
  }
  for ( int x = 1; x < 256; x++ ) for ( unsigned i = 0; i < 4; i++ ) {
    st( mc::fmt( "segment %u quantizer + %d", i, x ), [=]( DecoderState & s ) { if ( s.segmentation.initialized() ) s.segmentation.get().segment_quantizer_adjustments.at( i ) += x; } );
    st( mc::fmt( "segment %u filter level + %d", i, x ), [=]( DecoderState & s ) { if ( s.segmentation.initialized() ) s.segmentation.get().segment_filter_adjustments.at( i ) += x; } );
    st( mc::fmt( "reference adjustment %u + %d", i, x ), [=]( DecoderState & s ) { if ( s.filter_adjustments.initialized() ) s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) += x; } );
    st( mc::fmt( "mode adjustment %u + %d", i, x ), [=]( DecoderState & s ) { if ( s.filter_adjustments.initialized() ) s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) += x; } );
  }
  st( "absolute segment adjustments", []( DecoderState & s ) { if ( s.segmentation.initialized() ) s.segmentation.get().absolute_segment_adjustments ^= 1; } );
  for ( unsigned y = 0; y < 2; y++ ) for ( unsigned x = 0; x < 2; x++ ) for ( int v = 1; v < 4; v++ ) st( mc::fmt( "segment of macroblock %u,%u + %d", x, y, v ), [=]( DecoderState & s ) { if ( s.segmentation.initialized() ) { auto & m = s.segmentation.get().map.at( x, y ); m = ( m + v ) % 4; } } );
  st( "no segmentation", []( DecoderState & s ) { s.segmentation.clear(); } );
  st( "no filter adjustments", []( DecoderState & s ) { s.filter_adjustments.clear(); } );
  st( "segmentation adjustments exchanged", []( DecoderState & s ) { if ( s.segmentation.initialized() ) std::swap( s.segmentation.get().segment_quantizer_adjustments, s.segmentation.get().segment_filter_adjustments ); } );
  st( "filter adjustments exchanged", []( DecoderState & s ) { if ( s.filter_adjustments.initialized() ) for ( int i = 0; i < 4; i++ ) std::swap( s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ), s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) ); } );
  for ( unsigned i = 0; i < 4; i++ ) for ( unsigned j = 0; j < i; j++ ) {
    st( mc::fmt( "mode adjustments %u and %u exchanged", i, j ), [=]( DecoderState & s ) { if ( s.filter_adjustments.initialized() ) std::swap( s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ), s.filter_adjustments.get().loopfilter_mode_adjustments.at( j ) ); } );
    st( mc::fmt( "reference adjustments %u and %u exchanged", i, j ), [=]( DecoderState & s ) { if ( s.filter_adjustments.initialized() ) std::swap( s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ), s.filter_adjustments.get().loopfilter_ref_adjustments.at( j ) ); } );
    st( mc::fmt( "segments %u and %u exchanged", i, j ), [=]( DecoderState & s ) { if ( s.segmentation.initialized() ) std::swap( s.segmentation.get().segment_quantizer_adjustments.at( i ), s.segmentation.get().segment_quantizer_adjustments.at( j ) ); } );
  }
  auto px = []( const string & n, int ref, std::function<void( VP8Raster & )> f ) { vs.push_back( { n, [=]( const Decoder & d ) {
    References r = d.get_references(); RasterHandle & t = ref == 0 ? r.last : ref == 1 ? r.golden : r.alternative;
    MutableRasterHandle m( d.get_width(), d.get_height() ); m.get().copy_from( t.get() ); f( m.get() ); t = RasterHandle( std::move( m ) ); return Decoder( d.get_state(), r ); } } ); };
  const vector<int> padd = T ? vector<int> { 1, 2, 16, 128, 255 } : vector<int> { 1, 128 };
  for ( int ref = 0; ref < 3; ref++ ) for ( int x : padd ) {
    for ( int i = 0; i < W * H; i++ ) px( mc::fmt( "reference %d Y(%d,%d) + %d", ref, i % W, i / W, x ), ref, [=]( VP8Raster & r ) { r.Y().at( i % W, i / W ) += x; } );
    for ( int i = 0; i < W * H / 4; i++ ) {
      px( mc::fmt( "reference %d U(%d,%d) + %d", ref, i % ( W / 2 ), i / ( W / 2 ), x ), ref, [=]( VP8Raster & r ) { r.U().at( i % ( W / 2 ), i / ( W / 2 ) ) += x; } );
      px( mc::fmt( "reference %d V(%d,%d) + %d", ref, i % ( W / 2 ), i / ( W / 2 ), x ), ref, [=]( VP8Raster & r ) { r.V().at( i % ( W / 2 ), i / ( W / 2 ) ) += x; } );
    }
    px( "U and V exchanged", ref, []( VP8Raster & r ) { for ( unsigned y = 0; y < r.height() / 2; y++ ) for ( unsigned x = 0; x < r.width() / 2; x++ ) std::swap( r.U().at( x, y ), r.V().at( x, y ) ); } );
  }
  for ( int p = 1; p < 6; p++ ) vs.push_back( { mc::fmt( "references permuted %d", p ), [=]( const Decoder & d ) { References r = d.get_references(); RasterHandle x[ 3 ] = { r.last, r.golden, r.alternative }; static const int P[ 6 ][ 3 ] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; r.last = x[ P[ p ][ 0 ] ]; r.golden = x[ P[ p ][ 1 ] ]; r.alternative = x[ P[ p ][ 2 ] ]; return Decoder( d.get_state(), r ); } } );
  /* large pictures: every plane of every reference, positions spread over all of it, and the segment map */
  static const int BIG[][ 2 ] = { { 255, 257 }, { 640, 360 }, { 17, 4400 }, { 4400, 17 } }; const int NP = T ? 257 : 33;
  mc::run( "differences in large states", 4 * 10, [&]( uint64_t i ) {
    mc::Digits d( i ); const int * z = BIG[ d( 4 ) ], w = z[ 0 ], h = z[ 1 ], what = d( 10 ); mc::describe( mc::fmt( "%dx%d, %s", w, h, what == 9 ? "segment map" : mc::fmt( "reference %d plane %d", what / 3, what % 3 ).c_str() ) );
    mc::isolated( [&] {
      vector<vp8::Frame> fs = vp8::three_references( w, h, 9 ); vp8::Gen g; vp8::Frame x = vp8::noisy_inter( w, h, 44, 2 ); x.seg = x.seg_map = x.seg_data = true; fs.push_back( x );
      Decoder b( w, h ); for ( auto & f : fs ) b.get_frame_output( Chunk( vp8::emit( f, g ) ) );
      const int mw = ( w + 15 ) / 16, mh = ( h + 15 ) / 16, pw = what == 9 ? mw : what % 3 ? 8 * mw : 16 * mw, ph = what == 9 ? mh : what % 3 ? 8 * mh : 16 * mh;
      std::set<uint64_t> seen { b.get_hash().hash() };
      for ( int k = 0; k < NP; k++ ) {
        const int at = uint64_t( k ) * ( pw * ph - 1 ) / ( NP - 1 ), px = at % pw, py = at / pw; mc::transition();
        DecoderState s = b.get_state(); References r = b.get_references();
        if ( what == 9 ) { auto & m = s.segmentation.get().map.at( px, py ); m = ( m + 1 ) % 4; }
        else {
          RasterHandle & t = what / 3 == 0 ? r.last : what / 3 == 1 ? r.golden : r.alternative; MutableRasterHandle m( w, h ); m.get().copy_from( t.get() );
          ( what % 3 == 0 ? m.get().Y() : what % 3 == 1 ? m.get().U() : m.get().V() ).at( px, py ) += 1; t = RasterHandle( std::move( m ) );
        }
        const Decoder c( s, r );
        mc::require( seen.insert( c.get_hash().hash() ).second and c != b and c.minihash() != b.minihash(), mc::fmt( "a change at (%d,%d) leaves the fingerprint as it was", px, py ) );
      }
      mc::state( mc::mix( i, b.get_hash().hash() ) );
    } );
  }, 1 );
  /* base states: three distinct references, segmentation and filter adjustments; and the same without them */
  static vector<Decoder> bases;
  for ( int k = 0; k < 2; k++ ) {
    vector<vp8::Frame> fs = vp8::three_references( W, H, 9 ); vp8::Gen g;
    vp8::Frame x = vp8::noisy_inter( W, H, 44, 2 );
    if ( k == 0 ) { x.seg = x.seg_map = x.seg_data = true; for ( int i = 0; i < 4; i++ ) { x.seg_q[ i ] = vp8::OptI( 3 * i - 5 ); x.seg_lf[ i ] = vp8::OptI( 7 - 2 * i ); x.lf_ref[ i ] = vp8::OptI( 5 * i - 3 ); x.lf_mode[ i ] = vp8::OptI( 2 - 3 * i ); } x.lf_delta = x.lf_delta_update = true; }
    fs.push_back( x ); Decoder d( W, H ); for ( auto & f : fs ) d.get_frame_output( Chunk( vp8::emit( f, g ) ) ); bases.push_back( d );
  }
  mc::run( "every difference of one field", vs.size() * 2, [&]( uint64_t i ) {
    const Decoder & b = bases[ i % 2 ]; const V & v = vs[ i / 2 ]; mc::describe( mc::fmt( "base %d: ", int( i % 2 ) ) + v.name );
    const Decoder d = v.f( b ); const bool eq = digest( d ) == digest( b ); mc::transition();
    if ( mc::state( digest( d ) ) ) mc::count( 3 );
    if ( eq ) {
      mc::require( d.get_hash() == b.get_hash() and d.get_hash().hash() == b.get_hash().hash() and d.minihash() == b.minihash() and d == b, v.name + ": equal states have different fingerprints" );
    } else {
      mc::require( d.get_hash() != b.get_hash() and d.get_hash().hash() != b.get_hash().hash() and d.get_hash().str() != b.get_hash().str(), v.name + ": different states have the same fingerprint" );
      mc::require( d.minihash() != b.minihash(), v.name + ": different states have the same short fingerprint" );
      mc::require( d != b, v.name + ": different states compare equal" );
      mc::require( not b.minihash_match( d.minihash() ) and b.minihash_match( b.minihash() ), v.name + ": short fingerprints match wrongly" );
    }
    if ( i % 3001 == 9 ) mc::sample( v.name );
  }, 32 );
  /* all states reached by sequences: equal exactly when their fingerprints are, however reached */
  const auto A = vp8::alphabet( W, H ); const int depth = 3; uint64_t n = A.size() * A.size() * A.size();
  struct R { uint64_t dig, hash, i; }; static R * R_ = static_cast<R *>( mmap( nullptr, sizeof( R ) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  mc::run( "states reached by sequences", n, [&]( uint64_t i ) {
    const vp8::Stream s = vp8::sequence( i, depth, A, W, H ); string nme; for ( auto & x : s.names ) nme += x + "; "; mc::describe( nme );
    Decoder d( W, H ), e( W, H ); vector<RasterHandle> keep;
    for ( auto & f : s.frames ) { d.get_frame_output( Chunk( f ) ); auto o = e.get_frame_output( Chunk( f ) ); keep.push_back( o.second ); e.get_hash(); e.minihash(); e = Decoder( e.get_state(), e.get_references() ); mc::transition(); }
    const DecoderHash h = d.get_hash();
    mc::require( h == e.get_hash() and h.hash() == e.get_hash().hash() and h.str() == e.get_hash().str() and d.minihash() == e.minihash() and d == e, "the same frames lead to different fingerprints" );
    mc::require( uint32_t( h.hash() ) == d.minihash(), "short fingerprint is not the long one's low half" );
    /* the same state from freshly made pictures */
    References r = d.get_references(); auto fresh = [&]( const RasterHandle & x ) { MutableRasterHandle m( W, H ); m.get().copy_from( x.get() ); return RasterHandle( std::move( m ) ); };
    r.last = fresh( r.last ); r.golden = fresh( r.golden ); r.alternative = fresh( r.alternative ); const Decoder c( d.get_state(), r );
    mc::require( c.get_hash() == h and c == d, "a state with copied pictures has another fingerprint" );
    const Decoder ex = Encoder( d, false, REALTIME_QUALITY ).export_decoder();
    mc::require( ex.get_hash() == h and Encoder( d, true, BEST_QUALITY ).minihash() == d.minihash(), "an encoder started from a state has another fingerprint" );
    R_[ i ] = { digest( d ), h.hash(), i }; mc::state( R_[ i ].dig );
  }, 32 );
  if ( mc::replaying ) return;
  mc::run( "all pairs of reached states", 1, [&]( uint64_t ) {
    std::map<uint64_t, R> byd, byh; uint64_t eqs = 0;
    for ( uint64_t i = 0; i < n; i++ ) {
      auto p = byd.insert( { R_[ i ].dig, R_[ i ] } ); if ( not p.second ) { eqs++; mc::require( p.first->second.hash == R_[ i ].hash, mc::fmt( "sequences %lu and %lu lead to equal states with different fingerprints", p.first->second.i, i ) ); }
      auto q = byh.insert( { R_[ i ].hash, R_[ i ] } ); if ( not q.second ) mc::require( q.first->second.dig == R_[ i ].dig, mc::fmt( "sequences %lu and %lu lead to different states with the same fingerprint", q.first->second.i, i ) );
    }
    mc::count( 4, eqs ); mc::count( 5, n * ( n - 1 ) / 2 );
  } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  if ( mc::prop == "P06" ) p06(); else if ( mc::prop == "P07" ) p07(); else if ( mc::prop == "P09" ) p09(); else p10();
  return mc::finish( { { "damaged_files_accepted_as_what_they_say", mc::S->counters[ 1 ].load() }, { "damaged_files_refused", mc::S->counters[ 2 ].load() }, { "pairs_compared", mc::S->counters[ 5 ].load() } } );
}
