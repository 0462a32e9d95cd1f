/* P04, P24: the real encoder driven through every sequence of encoding operations up to a depth, its idea of the
   decoder's state compared with a decoder that decodes its frames and with the reference decoder. */
#include "encpics.hh"
#include "starts.hh"
#include <malloc.h>
#include <memory>
using std::string; using std::vector;

struct Session {
  int w, h; Decoder dec; VpxDecoder vpx; vector<Bytes> stream;
  Session( int w_, int h_ ) : w( w_ ), h( h_ ), dec( w_, h_ ) {}
  void feed( const Bytes & b )
  {
    stream.push_back( b );
    const int e = vpx.decode( b ); if ( e ) throw std::logic_error( "reference decoder rejects a prefix frame" );
    Picture p; vpx.get( p ); dec.get_frame_output( Chunk( b ) );
  }
  void check( Encoder & e, const Bytes & b, const string & what )
  {
    stream.push_back( b ); mc::transition();
    if ( const char * dump = getenv( "MC_DUMP" ) ) dump_ivf( dump, stream, w, h );
    auto out = dec.get_frame_output( Chunk( b ) );
    const Decoder x = e.export_decoder();
    const References rd = dec.get_references(), re = x.get_references();
    mc::require( out.first, what + ": the frame is not shown" );
    mc::require( raster_digest( rd.last ) == raster_digest( re.last ), what + ": encoder's last picture differs from the decoder's" );
    mc::require( raster_digest( rd.golden ) == raster_digest( re.golden ), what + ": encoder's golden picture differs from the decoder's" );
    mc::require( raster_digest( rd.alternative ) == raster_digest( re.alternative ), what + ": encoder's alternate picture differs from the decoder's" );
    mc::require( dec.get_state() == x.get_state(), what + ": encoder's decoder state (probabilities, segmentation, filter adjustments) differs from the decoder's" );
    mc::require( dec == x, what + ": exported decoder differs from the decoder" );
    mc::require( e.minihash() == dec.minihash() and x.minihash() == dec.minihash(), what + mc::fmt( ": fingerprints differ (encoder %08x, exported %08x, decoder %08x)", e.minihash(), x.minihash(), dec.minihash() ) );
    const int r = vpx.decode( b );
    mc::require( r == 0, what + ": a conforming decoder rejects the frame" );
    Picture p; mc::require( vpx.get( p ), what + ": a conforming decoder does not show the frame" );
    const string df = picture_diff( picture( re.last ), p );
    mc::require( df.empty(), what + ": a conforming decoder shows another picture: " + df );
    mc::state( mc::mix( dec.get_hash().hash(), refs_digest( rd ) ) );
  }
};

static const char * qual( int i ) { return i & 1 ? "realtime" : "best"; }

static void p04()
{
  const bool T = mc::thorough();
  const int W = 50, H = 36;
  if ( mc::only != "sizes" ) {
  /* every sequence of operations */
  {
    const vector<int> pics = T ? vector<int> { 0, 1, 3, 7, 6, 5 } : vector<int> { 0, 2, 7, 5 };
    const vector<Mode> modes = T ? vector<Mode> { { 'q', 0 }, { 'q', 40 }, { 'q', 127 }, { 's', 700 }, { 's', 4000 }, { 'm', 900 } } : vector<Mode> { { 'q', 3 }, { 'q', 100 }, { 's', 1500 }, { 'm', 930 } };
    const uint64_t A = pics.size() * modes.size(); const int depth = 3;
    uint64_t n = 4; for ( int i = 0; i < depth; i++ ) n *= A;
    mc::run( "sequences of encodings", n, [&]( uint64_t i ) {
      mc::Digits d( i ); const int c = d( 4 ); vector<int> op; for ( int k = 0; k < depth; k++ ) op.push_back( d( A ) );
      string nm = mc::fmt( "%s quality, two-pass %d:", qual( c ), c / 2 );
      for ( int o : op ) nm += string( " " ) + pic_name( pics[ o % pics.size() ] ) + "@" + mode_name( modes[ o / pics.size() ] ) + ",";
      mc::describe( nm );
      Encoder e( W, H, c / 2, c & 1 ? REALTIME_QUALITY : BEST_QUALITY ); Session s( W, H );
      for ( int k = 0; k < depth; k++ ) {
        const Bytes b = encode( e, input( pics[ op[ k ] % pics.size() ], W, H ), modes[ op[ k ] / pics.size() ] );
        s.check( e, b, mc::fmt( "frame %d", k ) );
      }
      if ( i % 9973 == 7 ) mc::sample( nm );
    }, 8 );
  }
  /* every quantizer */
  mc::run( "every quantizer", 128 * N_PICS * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int q = d( 128 ), k = d( N_PICS ), c = d( 2 );
    mc::describe( mc::fmt( "%s then texture, q %d, %s", pic_name( k ), q, qual( c ) ) );
    Encoder e( W, H, false, c ? REALTIME_QUALITY : BEST_QUALITY ); Session s( W, H );
    s.check( e, e.encode_with_quantizer( input( k, W, H ), q ), "key frame" );
    s.check( e, e.encode_with_quantizer( input( ( k + 1 ) % N_PICS, W, H ), 127 - q ), "inter frame" );
    s.check( e, e.encode_with_quantizer( input( k, W, H ), q ), "third frame" );
  }, 8 );
  /* every starting state x pictures x modes */
  {
    const vector<Mode> modes { { 'q', 0 }, { 'q', 60 }, { 'q', 120 }, { 's', 900 }, { 'm', 900 } };
    const vector<int> pics = T ? vector<int> { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 } : vector<int> { 0, 4, 5, 7, 10, 14 };
    mc::run( "encoders started from decoder states", vp8::N_STARTS * modes.size() * pics.size() * pics.size() * 4, [&]( uint64_t i ) {
      mc::Digits d( i ); const int st = d( vp8::N_STARTS ), m = d( modes.size() ), a = pics[ d( pics.size() ) ], b = pics[ d( pics.size() ) ], c = d( 4 );
      mc::describe( mc::fmt( "start state %d, %s then %s, %s, %s quality, two-pass %d", st, pic_name( a ), pic_name( b ), mode_name( modes[ m ] ).c_str(), qual( c ), c / 2 ) );
      Session s( W, H ); vp8::Gen g; for ( auto & f : vp8::start_frames( st, W, H ) ) s.feed( vp8::emit( f, g ) );
      Encoder e( s.dec, c / 2, c & 1 ? REALTIME_QUALITY : BEST_QUALITY );
      mc::require( e.minihash() == s.dec.minihash(), "an encoder started from a decoder has another fingerprint" );
      s.check( e, encode( e, input( a, W, H ), modes[ m ] ), "first frame" );
      s.check( e, encode( e, input( b, W, H ), modes[ ( m + 1 ) % modes.size() ] ), "second frame" );
      s.check( e, encode( e, input( a, W, H ), modes[ m ] ), "third frame" );
    }, 8 );
  }
  }
  /* every size (one process per size: the pools hold one size) */
  {
    const int M = T ? 50 : 33;
    static const int large[][ 2 ] = { { 640, 360 }, { 4400, 17 }, { 17, 4400 }, { 1030, 40 }, { 40, 1030 }, { 257, 255 } };
    mc::run( "every size", M * M + 6, [&]( uint64_t i ) {
      const int w = i < 6 ? large[ i ][ 0 ] : 1 + ( i - 6 ) % M, h = i < 6 ? large[ i ][ 1 ] : 1 + ( i - 6 ) / M;
      mc::describe( mc::fmt( "size %dx%d", w, h ) );
      mc::isolated( [&] {
        for ( int c = i < 6; c < 2; c++ ) {
          Encoder e( w, h, c, c ? REALTIME_QUALITY : BEST_QUALITY ); Session s( w, h );
          const Mode ms[] = { { 'q', 5 }, { 's', 300 }, { 'q', 70 }, { 'm', 950 } };
          for ( int k = 0; k < 4; k++ ) s.check( e, encode( e, input( ( i + 3 * k ) % N_PICS, w, h ), ms[ ( k + c ) % 4 ] ), mc::fmt( "quality %d frame %d", c, k ) );
        }
      } );
    } );
  }
}

/* ---- P05: bytes and states depend only on the encoder's own history ---- */
struct Op { char kind; int a, b; Mode m; };  /* e: encode slot a picture b; c: copy slot a over slot b; m: move slot a; x: estimate; d: encode on a discarded copy; f: fresh encoder in slot a; o: an unrelated encoder works; r: slot a restarts from its exported state */
static string op_name( const Op & o )
{
  switch ( o.kind ) {
  case 'e': return mc::fmt( "encode%d(%s,%s)", o.a, pic_name( o.b ), mode_name( o.m ).c_str() );
  case 'c': return mc::fmt( "copy %d over %d", o.a, o.b );
  case 'm': return mc::fmt( "move %d", o.a );
  case 'x': return mc::fmt( "estimate%d(%s,q%d)", o.a, pic_name( o.b ), o.m.v );
  case 'd': return mc::fmt( "try on copy of %d (%s,%s)", o.a, pic_name( o.b ), mode_name( o.m ).c_str() );
  case 'f': return mc::fmt( "fresh %d", o.a );
  default: return mc::fmt( "another encoder encodes %s", pic_name( o.b ) );
  }
}
struct Result { uint64_t bytes, est; uint32_t hash; bool done; };

static void p05()
{
  const bool T = mc::thorough();
  const int W = 36, H = 20;
  const vector<std::pair<int, Mode>> enc = { { 0, { 'q', 20 } }, { 7, { 'q', 3 } }, { 3, { 'q', 90 } }, { 1, { 's', 900 } }, { 10, { 'm', 920 } } };
  const int E = enc.size();
  /* quality, two-pass, started from a decoder state, depth */
  struct Cfg { bool rt, two, started; int depth; };
  const vector<Cfg> cfgs = T ? vector<Cfg> { { 0, 0, 0, 4 }, { 1, 0, 0, 4 }, { 0, 1, 0, 4 }, { 1, 1, 0, 4 }, { 0, 0, 1, 4 }, { 1, 0, 1, 4 }, { 0, 1, 1, 4 }, { 1, 1, 1, 4 }, { 1, 0, 0, 5 } }
                             : vector<Cfg> { { 0, 0, 0, 4 }, { 1, 1, 1, 4 }, { 0, 1, 0, 3 }, { 1, 0, 0, 3 } };
  vector<Bytes> before; { vp8::Gen g; for ( auto & f : vp8::start_frames( 2, W, H ) ) before.push_back( vp8::emit( f, g ) ); }
  for ( auto & cfg : cfgs ) {
    const EncoderQuality Q = cfg.rt ? REALTIME_QUALITY : BEST_QUALITY;
    const string cname = mc::fmt( "%s quality, two-pass %d, %s, depth %d", qual( cfg.rt ), cfg.two, cfg.started ? "started from a decoder" : "new", cfg.depth );
    auto fresh = [&] {
      if ( not cfg.started ) return std::unique_ptr<Encoder>( new Encoder( W, H, cfg.two, Q ) );
      Decoder d( W, H ); for ( auto & b : before ) d.get_frame_output( Chunk( b ) );
      return std::unique_ptr<Encoder>( new Encoder( d, cfg.two, Q ) );
    };
    const int L = cfg.depth;
    /* what each history of encodings gives, computed in a process of its own in which nothing else happens */
    vector<uint64_t> base( L + 2, 0 ); { uint64_t n = 1; for ( int d = 0; d <= L; d++ ) { base[ d + 1 ] = base[ d ] + n; n *= E; } }
    const size_t N = base[ L + 1 ];
    Result * table = static_cast<Result *>( mmap( nullptr, N * sizeof( Result ) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
    auto slot_of = [&]( const vector<int> & h ) { uint64_t v = 0; for ( int x : h ) v = v * E + x; return base[ h.size() ] + v; };
    const uint64_t leaves = base[ L + 1 ] - base[ L ];
    auto history = [&]( uint64_t i ) {
      mc::isolated( [&] {
        mc::Digits d( i ); vector<int> h;
        auto note = [&]( Encoder & e, const Bytes & b ) {
          Result & r = table[ slot_of( h ) ]; r.bytes = mc::hash_bytes( b.data(), b.size() ); r.hash = e.minihash(); r.done = true;
        };
        auto e = fresh(); note( *e, {} );
        for ( int k = 0; k < L; k++ ) { const int x = d( E ); const Bytes b = encode( *e, input( enc[ x ].first, W, H ), enc[ x ].second ); h.push_back( x ); note( *e, b ); }
      } );
      mc::Digits d( i ); vector<int> all; for ( int k = 0; k < L; k++ ) all.push_back( d( E ) );
      for ( int len = 0; len <= L; len++ ) {
        const vector<int> h( all.begin(), all.begin() + len ); if ( table[ slot_of( h ) ].est ) continue;
        mc::isolated( [&] {
          auto e = fresh(); for ( int x : h ) encode( *e, input( enc[ x ].first, W, H ), enc[ x ].second );
          table[ slot_of( h ) ].est = 1 + e->estimate_frame_size( input( 2, W, H ), 33 );
        } );
      }
    };
    auto want = [&]( const vector<int> & h ) -> const Result & { return table[ slot_of( h ) ]; };
    if ( mc::replaying ) for ( uint64_t i = 0; i < leaves; i++ ) history( i );
    else mc::run( "histories alone, " + cname, leaves, history );
    vector<Op> ops;
    for ( int k = 0; k < E; k++ ) ops.push_back( { 'e', 0, k } );
    ops.push_back( { 'e', 1, 0 } ); ops.push_back( { 'e', 1, 2 } ); if ( T ) ops.push_back( { 'e', 1, 1 } );
    ops.push_back( { 'c', 0, 1 } ); ops.push_back( { 'c', 1, 0 } ); ops.push_back( { 'm', 0 } );
    ops.push_back( { 'x', 0, 2, { 'q', 33 } } );
    ops.push_back( { 'd', 0, 1 } ); ops.push_back( { 'd', 0, 3 } );
    ops.push_back( { 'f', 1 } ); ops.push_back( { 'o', 0, 6 } );
    uint64_t n = 1; for ( int i = 0; i < L; i++ ) n *= ops.size();
    mc::run( "sequences of operations, " + cname, n, [&]( uint64_t i ) {
      mallopt( M_PERTURB, 1 + i % 255 );   /* stale memory differs from execution to execution */
      mc::Digits d( i ); vector<Op> seq; for ( int k = 0; k < L; k++ ) seq.push_back( ops[ d( ops.size() ) ] );
      string nm; for ( auto & o : seq ) { Op q = o; if ( o.kind == 'e' or o.kind == 'd' ) { q.b = enc[ o.b ].first; q.m = enc[ o.b ].second; } nm += op_name( q ) + "; "; }
      mc::describe( nm );
      std::unique_ptr<Encoder> s[ 2 ] = { fresh(), fresh() }; vector<int> hist[ 2 ];
      auto ask = [&]( int a, const vector<int> & h, const Bytes & b, Encoder & e, const char * what ) {
        const Result & r = want( h );
        mc::require( mc::hash_bytes( b.data(), b.size() ) == r.bytes, string( what ) + mc::fmt( " in slot %d: bytes differ from those the same history gives alone", a ) );
        mc::require( e.minihash() == r.hash, string( what ) + mc::fmt( " in slot %d: resulting state differs from the one the same history gives alone", a ) );
      };
      for ( auto & o : seq ) {
        mc::transition();
        switch ( o.kind ) {
        case 'e': { const Bytes b = encode( *s[ o.a ], input( enc[ o.b ].first, W, H ), enc[ o.b ].second ); hist[ o.a ].push_back( o.b ); ask( o.a, hist[ o.a ], b, *s[ o.a ], "encoding" ); break; }
        case 'c': { s[ o.b ].reset( new Encoder( *s[ o.a ] ) ); hist[ o.b ] = hist[ o.a ]; break; }
        case 'm': { std::unique_ptr<Encoder> t( new Encoder( std::move( *s[ o.a ] ) ) ); Encoder u( W, H, not cfg.two, cfg.rt ? BEST_QUALITY : REALTIME_QUALITY ); u.encode_with_quantizer( input( 3, W, H ), 77 ); u = std::move( *t ); s[ o.a ].reset( new Encoder( std::move( u ) ) ); break; }
        case 'x': { const uint64_t est = s[ o.a ]->estimate_frame_size( input( o.b, W, H ), o.m.v ); mc::require( 1 + est == want( hist[ o.a ] ).est, "estimated size differs from the one the same history gives alone" ); break; }
        case 'd': { Encoder t( *s[ o.a ] ); const Bytes b = encode( t, input( enc[ o.b ].first, W, H ), enc[ o.b ].second ); vector<int> h = hist[ o.a ]; h.push_back( o.b ); ask( o.a, h, b, t, "encoding on a copy" ); break; }
        case 'f': s[ o.a ] = fresh(); hist[ o.a ].clear(); break;
        default: { Encoder t( W, H, false, BEST_QUALITY ); t.encode_with_quantizer( input( o.b, W, H ), 10 ); t.encode_with_quantizer( input( 2, W, H ), 60 ); break; }
        }
        mc::require( s[ 0 ]->minihash() == want( hist[ 0 ] ).hash, "slot 0's state was changed by: " + nm );
        mc::require( s[ 1 ]->minihash() == want( hist[ 1 ] ).hash, "slot 1's state was changed by: " + nm );
        mc::state( mc::mix( slot_of( hist[ 0 ] ), slot_of( hist[ 1 ] ) ) );
      }
      if ( i % 9973 == 7 ) mc::sample( nm );
    }, 16 );
    munmap( table, N * sizeof( Result ) * 2 );
  }
}

/* ---- P24: searches for a quality or a size ---- */
/* mean structural similarity of overlapping 8x8 windows, every 4 pixels */
static double ssim_of( const VP8Raster & a, const VP8Raster & b )
{
  const int w = a.width(), h = a.height(); double sum = 0; int n = 0;
  for ( int y = 0; y + 8 <= h; y += 4 ) for ( int x = 0; x + 8 <= w; x += 4 ) {
    int s1 = 0, s2 = 0, ss = 0, s12 = 0;
    for ( int j = 0; j < 8; j++ ) for ( int i = 0; i < 8; i++ ) { const int p = a.Y().at( x + i, y + j ), q = b.Y().at( x + i, y + j ); s1 += p; s2 += q; ss += p * p + q * q; s12 += p * q; }
    const double c1 = int( .01 * .01 * 255 * 255 * 64 + .5 ), c2 = int( .03 * .03 * 255 * 255 * 64 * 63 + .5 );
    const double vars = 64.0 * ss - 1.0 * s1 * s1 - 1.0 * s2 * s2, cov = 64.0 * s12 - 1.0 * s1 * s2;
    sum += ( 2.0 * s1 * s2 + c1 ) * ( 2 * cov + c2 ) / ( ( 1.0 * s1 * s1 + 1.0 * s2 * s2 + c1 ) * ( vars + c2 ) ); n++;
  }
  return sum / n;
}
struct Trial { Bytes bytes; double ssim; size_t est; };

static void p24()
{
  const bool T = mc::thorough();
  const int W = 44, H = 30;
  /* one execution: a history, then every quantizer tried on copies (what is available), then every target */
  struct Hist { vector<std::pair<int, Mode>> ops; };
  vector<Hist> hists = { { {} } };
  const vector<std::pair<int, Mode>> prev = { { 0, { 'q', 0 } }, { 0, { 'q', 4 } }, { 0, { 'q', 19 } }, { 0, { 'q', 20 } }, { 0, { 'q', 21 } }, { 0, { 'q', 60 } }, { 0, { 'q', 111 } }, { 0, { 'q', 112 } }, { 0, { 'q', 127 } }, { 7, { 'q', 30 } }, { 5, { 'q', 100 } }, { 13, { 'q', 50 } } };
  for ( auto & p : prev ) { hists.push_back( { { p } } ); hists.push_back( { { p, { 1, { 'q', 40 } } } } ); if ( T ) for ( auto & q : prev ) hists.push_back( { { p, q } } ); }
  const vector<int> pics = T ? vector<int> { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 } : vector<int> { 1, 3, 5, 6, 7, 10, 12, 15 };
  mc::run( "history x picture x quality, every quantizer and target", hists.size() * pics.size() * 4, [&]( uint64_t i ) {
    mc::Digits d( i ); const int c = d( 4 ); const Hist & h = hists[ d( hists.size() ) ]; const int k = pics[ d( pics.size() ) ];
    string nm = mc::fmt( "%s quality, two-pass %d, after", qual( c ), c / 2 ); for ( auto & o : h.ops ) nm += string( " " ) + pic_name( o.first ) + "@" + mode_name( o.second ) + ","; nm += string( " picture " ) + pic_name( k );
    mc::describe( nm );
    Encoder e( W, H, c / 2, c & 1 ? REALTIME_QUALITY : BEST_QUALITY );
    for ( auto & o : h.ops ) encode( e, input( o.first, W, H ), o.second );
    const RasterHandle in = input( k, W, H );
    vector<Trial> t( 128 );
    for ( int q = 0; q < 128; q++ ) {
      Encoder x( e ); t[ q ].est = x.estimate_frame_size( in, q );
      t[ q ].bytes = x.encode_with_quantizer( in, q );
      const VP8Raster & out = x.export_decoder().get_references().last;
      t[ q ].ssim = out.quality( in.get() );
      const double mine = ssim_of( out, in.get() );
      mc::require( std::abs( t[ q ].ssim - mine ) < 1e-3, mc::fmt( "q %d: picture quality measured as %f, is %f", q, t[ q ].ssim, mine ) );
      mc::require( x.stats().ssim.initialized() and std::abs( x.stats().ssim.get() - t[ q ].ssim ) < 1e-9, mc::fmt( "q %d: the encoder reports quality %f, the decoded picture's is %f", q, x.stats().ssim.initialized() ? x.stats().ssim.get() : -1, t[ q ].ssim ) );
      Encoder y( x ), z( W, H, false, BEST_QUALITY ); z = Encoder( y );
      mc::require( y.stats().ssim.initialized() and y.stats().ssim.get() == x.stats().ssim.get() and z.stats().ssim.initialized() and z.stats().ssim.get() == x.stats().ssim.get(), mc::fmt( "q %d: a copy of the encoder reports another quality", q ) );
      mc::transition();
    }
    /* quality targets: all the values that separate the available ones, and out-of-range ones */
    vector<double> targets { 0, 0.5, 0.9, 0.97, 1.0, 2.0 };
    for ( int q = 0; q < 128; q += T ? 1 : 7 ) { targets.push_back( t[ q ].ssim ); targets.push_back( t[ q ].ssim + 1e-7 ); }
    for ( double m : targets ) {
      /* what bisection over the quantizers reaches */
      int lo = 0, hi = 127, want = 0;
      while ( lo <= hi ) { const int q = ( lo + hi ) / 2; if ( t[ q ].ssim >= m ) { want = q; lo = q + 1; } else hi = q - 1; }
      Encoder x( e ); const Bytes b = x.encode_with_minimum_ssim( in, m ); mc::transition();
      const double got = x.export_decoder().get_references().last.get().quality( in.get() );
      bool any = false, all = true; int best = 0; for ( int q = 0; q < 128; q++ ) { any |= t[ q ].ssim >= m; all &= t[ q ].ssim >= m; if ( t[ q ].ssim > t[ best ].ssim ) best = q; }
      if ( t[ want ].ssim >= m ) mc::require( got >= m, mc::fmt( "minimum quality %.9f: got %.9f although quantizer %d of the search gives %.9f", m, got, want, t[ want ].ssim ) );
      mc::require( b == t[ want ].bytes, mc::fmt( "minimum quality %.9f: the frame (quality %.9f, %zu bytes) is not the one of the coarsest sufficient quantizer %d (quality %.9f, %zu bytes)", m, got, b.size(), want, t[ want ].ssim, t[ want ].bytes.size() ) );
      mc::require( std::abs( x.stats().ssim.get() - got ) < 1e-9, "the reported quality is not that of the decoded picture" );
      mc::state( mc::mix( i, want ) );
    }
    /* size targets */
    int last = -1; if ( c & 1 ) for ( auto & o : h.ops ) last = o.second.v;
    vector<size_t> sizes { 0, 1, 1000000 };
    for ( int q = 0; q < 128; q += T ? 1 : 5 ) { sizes.push_back( t[ q ].est ); sizes.push_back( t[ q ].est - 1 ); }
    for ( size_t m : sizes ) {
      int lo = 4, hi = 127; if ( last >= 0 ) { lo = std::max( lo, last - 16 ); hi = std::min( hi, last + 16 ); }
      int want = hi; { int a = lo, b = hi; while ( a <= b ) { const int q = ( a + b ) / 2; if ( t[ q ].est <= m ) { want = q; b = q - 1; } else a = q + 1; } }
      Encoder x( e ); const Bytes b = x.encode_with_target_size( in, m ); mc::transition();
      mc::require( b == t[ want ].bytes, mc::fmt( "size target %zu: the frame (%zu bytes) is not the one of the finest quantizer of the search that fits, %d (%zu bytes, estimated %zu)", m, b.size(), want, t[ want ].bytes.size(), t[ want ].est ) );
      mc::state( mc::mix( i, 1000 + want ) );
    }
    if ( i % 97 == 3 ) mc::sample( nm );
  } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  if ( mc::prop == "P04" ) p04();
  if ( mc::prop == "P05" ) p05();
  if ( mc::prop == "P24" ) p24();
  return mc::finish();
}
