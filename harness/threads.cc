/* P19: threads of the real code that encode, decode, share, compare and drop pictures, under every schedule of lock
   operations with a bounded number of preemptions; each thread must produce what it produces alone. */
#include "sched.hh"
#include "alf.hh"
#include "starts.hh"
#include "alphabet.hh"
#include "encpics.hh"
using namespace vp8;
using std::string; using std::vector;

static const int W = 32, HH = 16;

struct Kept { RasterHandle h; uint64_t digest; };
struct Context {
  vector<RasterHandle> pics;                 /* shared, read by all */
  vector<RasterHandle> owned[ sched::MAXT ]; /* each thread's own copies of shared pictures */
  std::unique_ptr<Decoder> decoder; std::unique_ptr<Encoder> encoder;
  vector<Bytes> frames;
  vector<Kept> kept[ sched::MAXT ];
  uint64_t result[ sched::MAXT ];
};
struct Scenario { string name; int threads; std::function<void( Context & )> setup; std::function<uint64_t( Context &, int )> body; };

static void keep( Context & c, int t, const RasterHandle & h ) { c.kept[ t ].push_back( { h, raster_digest( h.get() ) } ); }
static uint64_t bytes( const Bytes & b ) { return mc::hash_bytes( b.data(), b.size() ); }
static uint64_t allocate( Context & c, int t, int n )
{
  uint64_t dg = 0;
  for ( int k = 0; k < n; k++ ) {
    MutableRasterHandle m( W, HH ); VP8Raster & r = m.get();
    const int v = 17 * t + 40 * k + 3;
    for ( auto * p : { &r.Y(), &r.U(), &r.V() } ) p->forall_ij( [&]( uint8_t & x, unsigned a, unsigned b ) { x = v + a * 3 + b; } );
    RasterHandle h( std::move( m ) ); dg = mc::mix( dg, h.hash() ); keep( c, t, h );
  }
  return dg;
}
static uint64_t encode_one( Context & c, int t, Encoder && e, int pic, const Mode & m )
{
  const Bytes b = encode( e, c.pics[ pic ].get(), m );
  const Decoder d = e.export_decoder(); keep( c, t, d.get_references().last );
  return mc::mix( bytes( b ), mc::mix( d.get_hash().hash(), e.minihash() ) );
}
static uint64_t decode_some( Context & c, int t, Decoder && d, const vector<int> & which )
{
  uint64_t dg = 0;
  for ( int k : which ) {
    try { auto o = d.get_frame_output( Chunk( c.frames[ k ] ) ); dg = mc::mix( dg, mc::mix( o.first, raster_digest( o.second ) ) ); keep( c, t, o.second ); }
    catch ( const std::exception & e ) { dg = mc::mix( dg, 5 ); }
  }
  return mc::mix( dg, mc::mix( d.get_hash().hash(), d.minihash() ) );
}
static void stream( Context & c, uint64_t seed )
{
  Gen g; const Bytes k = emit( noisy_key( W, HH, seed ), g );
  c.decoder.reset( new Decoder( W, HH ) ); c.decoder->get_frame_output( Chunk( k ) );
  for ( int n = 0; n < 3; n++ ) { Gen h = g; vp8::Frame f = noisy_inter( W, HH, seed + 1 + n ); f.refresh_golden = n == 1; c.frames.push_back( emit( f, h ) ); }
  { Gen h = g; c.frames.push_back( emit( noisy_key( W, HH, seed + 9 ), h ) ); }
  { Bytes cut = c.frames[ 0 ]; cut.resize( cut.size() / 2 ); c.frames.push_back( cut ); }
  { Bytes cut = c.frames[ 3 ]; cut.resize( cut.size() / 2 ); c.frames.push_back( cut ); }
}
static void pictures( Context & c, int n ) { static const int P[] = { 0, 1, 10, 7, 2, 9 }; for ( int k = 0; k < n; k++ ) c.pics.push_back( input( P[ k ], W, HH ) ); }

static vector<Scenario> scenarios()
{
  vector<Scenario> s;
  auto enc = []( Context & c ) { pictures( c, 3 ); c.encoder.reset( new Encoder( W, HH, false, REALTIME_QUALITY ) ); c.encoder->encode_with_quantizer( c.pics[ 2 ].get(), 30 ); };
  s.push_back( { "two quantizers for one picture", 2, enc, []( Context & c, int t ) { return encode_one( c, t, Encoder( *c.encoder ), 0, { 'q', t ? 60 : 20 } ); } } );
  s.push_back( { "encode and estimate", 2, enc, []( Context & c, int t ) {
    Encoder e( *c.encoder );
    return t ? uint64_t( e.estimate_frame_size( c.pics[ 1 ].get(), 40 ) ) : encode_one( c, t, std::move( e ), 1, { 's', 300 } ); } } );
  s.push_back( { "two encoders on a decoder's state", 2, []( Context & c ) { pictures( c, 2 ); stream( c, 5 ); }, []( Context & c, int t ) { return encode_one( c, t, Encoder( *c.decoder, t, BEST_QUALITY ), t, { 'q', 30 } ); } } );
  s.push_back( { "first encodings of two new encoders", 2, []( Context & c ) { pictures( c, 2 ); }, []( Context & c, int t ) { return encode_one( c, t, Encoder( W, HH, false, REALTIME_QUALITY ), t, { 'q', 30 } ); } } );
  auto dec = []( Context & c ) { stream( c, 5 ); };
  s.push_back( { "two decoders continue from one state", 2, dec, []( Context & c, int t ) { return decode_some( c, t, Decoder( *c.decoder ), t ? vector<int> { 1, 2 } : vector<int> { 0, 3 } ); } } );
  s.push_back( { "two new decoders", 2, dec, []( Context & c, int t ) { return decode_some( c, t, Decoder( W, HH ), t ? vector<int> { 3, 1 } : vector<int> { 3, 0 } ); } } );
  s.push_back( { "concealing decoders", 2, dec, []( Context & c, int t ) { Decoder d( *c.decoder ); d.set_error_concealment( true ); return decode_some( c, t, std::move( d ), t ? vector<int> { 4, 2 } : vector<int> { 5, 4 } ); } } );
  s.push_back( { "encode and decode from one state", 2, []( Context & c ) { pictures( c, 2 ); stream( c, 5 ); }, []( Context & c, int t ) {
    return t ? decode_some( c, t, Decoder( *c.decoder ), { 0, 1 } ) : encode_one( c, t, Encoder( *c.decoder, false, REALTIME_QUALITY ), 1, { 'q', 50 } ); } } );
  s.push_back( { "compare and hash the same pictures", 2, []( Context & c ) { pictures( c, 3 ); }, []( Context & c, int t ) {
    uint64_t r = 0; for ( int k = 0; k < 3; k++ ) { const int a = t ? 2 - k : k; r = mc::mix( r, c.pics[ a ].hash() ); r = mc::mix( r, c.pics[ a ] == c.pics[ ( a + 1 ) % 3 ] ); r = mc::mix( r, c.pics[ a ] == c.pics[ a ] ); } return r; } } );
  auto own = []( Context & c ) { pictures( c, 3 ); for ( auto & o : c.owned ) o = c.pics; c.pics.clear(); };
  s.push_back( { "drop shared pictures and allocate", 2, own, []( Context & c, int t ) {
    uint64_t r = 0; for ( int k = 0; k < 3; k++ ) { r = mc::mix( r, c.owned[ t ].back().hash() ); c.owned[ t ].pop_back(); r = mc::mix( r, allocate( c, t, 1 ) ); } return r; } } );
  s.push_back( { "three threads drop, allocate and hash", 3, own, []( Context & c, int t ) {
    uint64_t r = 0; for ( int k = 0; k < 2; k++ ) { c.owned[ t ].pop_back(); r = mc::mix( r, allocate( c, t, 1 ) ); } return mc::mix( r, c.owned[ t ][ 0 ].hash() ); } } );
  s.push_back( { "encode, decode and drop", 3, []( Context & c ) { pictures( c, 2 ); stream( c, 5 ); for ( int k = 0; k < 3; k++ ) c.owned[ 2 ].push_back( c.decoder->get_references().last ); }, []( Context & c, int t ) {
    return t == 0 ? encode_one( c, t, Encoder( *c.decoder, false, REALTIME_QUALITY ), 1, { 'q', 50 } ) : t == 1 ? decode_some( c, t, Decoder( *c.decoder ), { 1 } )
      : ( c.owned[ t ].clear(), allocate( c, t, 2 ) ); } } );
  s.push_back( { "save and reload states", 2, dec, []( Context & c, int t ) {
    EncoderStateSerializer o; c.decoder->serialize( o ); const string f = mc::fmt( "state-%d-%d", int( getpid() ), t ); o.write( f );
    EncoderStateDeserializer i( f ); Decoder d = Decoder::deserialize( i ); unlink( f.c_str() ); return decode_some( c, t, std::move( d ), { t } ); } } );
  return s;
}

struct Plan { vector<int> step, target; uint64_t choices; };
static uint64_t * expected = nullptr; /* shared: expected[ scenario * MAXT + thread ] */

/* one execution, in a process of its own; alone >= 0: only that thread */
static void execute( const Scenario & s, int number, const Plan & p, int alone )
{
  mc::isolated( [&] {
    memset( sched::log_, 0, sizeof( *sched::log_ ) );
    sched::np = p.step.size(); for ( int k = 0; k < sched::np; k++ ) { sched::pstep[ k ] = p.step[ k ]; sched::ptarget[ k ] = p.target[ k ]; }
    sched::choices = p.choices;
    Context c; s.setup( c );
    for ( auto & f : c.frames ) f.shrink_to_fit();
    if ( alone >= 0 ) {
      expected[ number * sched::MAXT + alone ] = s.body( c, alone );
      sched::run_threads( s.threads, []( int ) {} );
      return;
    }
    sched::run_threads( s.threads, [&]( int t ) { c.result[ t ] = s.body( c, t ); } );
    if ( mc::S->stop.load() ) return;
    uint64_t st = 0;
    for ( int t = 0; t < s.threads; t++ ) mc::require( c.result[ t ] == expected[ number * sched::MAXT + t ], mc::fmt( "thread %d produced something else than alone", t ) );
    auto unchanged = [&] { for ( int t = 0; t < s.threads; t++ ) for ( auto & k : c.kept[ t ] ) mc::require( raster_digest( k.h.get() ) == k.digest, mc::fmt( "a picture that thread %d still holds has changed", t ) ); };
    unchanged();
    /* buffers that the pools hand out now belong to nobody else */
    vector<MutableRasterHandle> fresh; for ( int k = 0; k < 8; k++ ) fresh.emplace_back( W, HH );
    for ( unsigned k = 0; k < fresh.size(); k++ ) { VP8Raster & r = fresh[ k ].get(); for ( auto * q : { &r.Y(), &r.U(), &r.V() } ) q->forall_ij( [&]( uint8_t & x, unsigned a, unsigned b ) { x = 255 - k - a - b; } ); st = mc::mix( st, (uint64_t) &r % 65536 ); }
    unchanged();
    for ( unsigned k = 0; k < fresh.size(); k++ ) mc::require( fresh[ k ].get().Y().at( 0, 0 ) == 255 - k, "the pool handed out one buffer twice" );
    for ( auto & o : c.owned ) o.clear();
    mc::transition( sched::log_->steps );
    mc::state( mc::mix( number * 1000003, mc::mix( sched::log_->steps * 64 + sched::log_->blocked, mc::mix( sched::log_->choice, mc::hash_bytes( &p.step[ 0 ], p.step.size() * 4 ) ) ) ) );
  } );
}

static uint64_t binomial( uint64_t n, int k ) { uint64_t r = 1; for ( int i = 0; i < k; i++ ) r = r * ( n - i ) / ( i + 1 ); return r; }
static vector<int> unrank( uint64_t i, uint64_t n, int k )
{
  vector<int> r; uint64_t a = 0;
  for ( int j = 0; j < k; j++ ) { while ( binomial( n - a - 1, k - j - 1 ) <= i ) { i -= binomial( n - a - 1, k - j - 1 ); a++; } r.push_back( a++ ); }
  return r;
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  sched::log_ = static_cast<sched::Log *>( mmap( nullptr, sizeof( sched::Log ) * mc::MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  sched::Log * logs = sched::log_;
  expected = static_cast<uint64_t *>( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  const bool T = mc::thorough();
#ifdef __SANITIZE_THREAD__
  const double cost = 0.03;
#else
  const double cost = 0.0016;
#endif
  const auto all = scenarios();
  uint64_t longest = 0;
  for ( unsigned n = 0; n < all.size(); n++ ) {
    const Scenario & s = all[ n ];
    for ( int pass = 0; pass < 2; pass++ ) {
#ifdef __SANITIZE_THREAD__
      sched::atomic_points = pass; 
#else
      if ( pass ) continue;
#endif
      /* what each thread produces alone, and how long the schedules are */
      for ( int t = 0; t < s.threads; t++ ) execute( s, n, {}, t );
      uint64_t points = 0; const int choices = s.threads == 2 ? 2 : 12;
      for ( int c = 0; c < choices; c++ ) { execute( s, n, { {}, {}, uint64_t( c ) }, -1 ); points = std::max( points, sched::log_->steps ); }
      points += points / 10 + 4;
      longest = std::max( longest, points );
      for ( int b = 0; b <= 3; b++ ) {
        uint64_t targets = 1; for ( int k = 0; k < b; k++ ) targets *= s.threads - 1;
        const uint64_t total = binomial( points, b ) * targets * choices;
        /* the deepest bound that is affordable */
        if ( b > ( pass and not T ? 0 : 1 ) and total * cost / 8 > ( T ? 60 : 4.5 ) ) break;
        mc::run( s.name + mc::fmt( " (%lu points%s), %d preemptions", points, pass ? " with atomics" : "", b ), total, [&]( uint64_t i ) {
          sched::log_ = logs + mc::self;
          mc::Digits d( i ); Plan p; p.choices = d( choices ); for ( int k = 0; k < b; k++ ) p.target.push_back( d( s.threads - 1 ) ); p.step = unrank( d.v, points, b );
          string what = "first choices " + std::to_string( p.choices ) + ", preempted at"; for ( int k = 0; k < b; k++ ) what += mc::fmt( " %d->%d", p.step[ k ], p.target[ k ] );
          mc::describe( what );
          execute( s, n, p, -1 );
          if ( sched::log_->steps > points ) mc::count( 1 );
          if ( sched::log_->choice > ( s.threads == 2 ? 1 : 3 ) ) mc::count( 2 );
          mc::count( 3, sched::log_->preemptions ); mc::count( 4, sched::log_->blocked );
          if ( i % 997 == 11 ) mc::sample( s.name + ": " + what );
        }, 4 );
      }
    }
  }
  return mc::finish( { { "longest_schedule", longest }, { "schedules_longer_than_enumerated", mc::S->counters[ 1 ].load() }, { "schedules_with_more_choices_than_enumerated", mc::S->counters[ 2 ].load() },
    { "preemptions", mc::S->counters[ 3 ].load() }, { "waits_for_a_lock", mc::S->counters[ 4 ].load() } } );
}
