/* P15: the real salsify-sender and the real salsify-receiver, connected by a network that loses, duplicates and
   delays datagrams wherever the explorer says. Both programs run as they are, in threads of a fresh process. */
#define WORLD_WATCH_DISPLAY
#include "world.hh"
#include "camera_world.hh"
using std::string; using std::vector; using std::map; using std::deque;
int sender_main( int, char ** ); int receiver_main( int, char ** );

enum What { FINE, LOSE, TWICE, LATE1, LATE2, N_WHAT };
static const char * what_name[] = { "", "lost", "twice", "one frame late", "two frames late" };
/* the k-th datagram that leaves the sender (or the receiver) meets this fate */
struct Plan { map<int, What> data, acks; int frames, quiet; int64_t interval; int rtt; /* acknowledgements take that many frames */ };
static string describe( const Plan & p )
{
  string s = mc::fmt( "%d frames, %lld ms apart, acknowledgements %d frames later;", p.frames, (long long) p.interval / 1000, p.rtt );
  for ( auto & x : p.data ) if ( x.second ) s += mc::fmt( " datagram %d %s;", x.first, what_name[ x.second ] );
  for ( auto & x : p.acks ) if ( x.second ) s += mc::fmt( " acknowledgement %d %s;", x.first, what_name[ x.second ] );
  return s;
}

struct Session {
  const Plan plan; world::Actor tx, rx; map<uint32_t, Decoder> states;
  struct SentFrame { uint32_t source, target; uint16_t frags; string bytes; uint64_t picture; bool decoded = false; bool whole = false; }; map<uint32_t, SentFrame> sent;
  struct Flight { int due; string d; }; deque<Flight> to_rx, to_tx;
  size_t tx_read = 0, rx_read = 0; int data_no = 0, acks_no = 0, round = 0; uint32_t assemble_no = 0; size_t exact = 0; int last_adverse = -1; vector<int> good_rounds; vector<bool> good;
  explicit Session( const Plan & p ) : plan( p )
  {
    world::virtual_clock = true;
    world::start( rx, "the receiver", receiver_main, { "salsify-receiver", "4000", std::to_string( PW ), std::to_string( PH ) } ); world::check_running( rx );
    world::start( tx, "the sender", sender_main, { "salsify-sender", "127.0.0.1", "4000", "1337" } ); world::check_running( tx );
    Decoder d( PW, PH ); const uint32_t h = d.minihash(); states.emplace( h, d );
  }
  static What fate( const map<int, What> & m, int i ) { auto x = m.find( i ); return x == m.end() ? FINE : x->second; }
  void route( deque<Flight> & q, const string & d, What w, int base )
  {
    if ( w != FINE ) last_adverse = std::max( last_adverse, round + ( w == LATE1 ? 1 : w == LATE2 ? 2 : 0 ) );
    if ( w == LOSE ) return;
    q.push_back( { round + base + ( w == LATE1 ? 1 : w == LATE2 ? 2 : 0 ), d } );
    if ( w == TWICE ) q.push_back( { round + base, d } );
  }
  /* returns true when the sender took a picture */
  bool own_step()
  {
    vector<pollfd> f; for ( auto & x : tx.asked ) if ( x.fd != tx.udp and x.events ) f.push_back( x );
    if ( f.empty() ) mc::fail( "the sender waits for nothing but the network" );
    int k; do k = syscall( SYS_poll, f.data(), f.size(), 60000 ); while ( k < 0 and errno == EINTR );
    if ( k <= 0 ) mc::fail( "the sender's next step never comes (hang)" );
    vector<short> r( tx.asked.size(), 0 ); bool given = false;
    for ( size_t i = 0; i < tx.asked.size() and not given; i++ ) for ( auto & x : f ) if ( x.fd == tx.asked[ i ].fd and ( x.revents & tx.asked[ i ].events ) ) { r[ i ] = x.revents & tx.asked[ i ].events; given = true; break; }
    const int before = camera_calls.load();
    world::resume( tx, r ); mc::transition();
    return camera_calls.load() != before;
  }
  void note_packet( const string & d )
  {
    const world::PacketW p = world::PacketW::read( d );
    mc::require( p.conn == 1337, "wrong connection" );
    SentFrame & f = sent[ p.frame ];
    f.source = p.source; f.target = p.target; f.frags = p.frags; f.bytes += p.payload;
    if ( p.frag + 1 < p.frags ) return;
    f.whole = true;
    mc::require( states.count( p.source ), "the sender builds on a state that never was" );
    Decoder dec = states.at( p.source ); const vector<uint8_t> b( f.bytes.begin(), f.bytes.end() );
    f.picture = raster_digest( dec.get_frame_output( Chunk( b ) ).second.get() );
    mc::require( dec.minihash() == f.target, "a frame does not lead to the state it names" );
    states.erase( f.target ); states.emplace( f.target, dec );
  }
  void drain_tx() { for ( ; tx_read < tx.outbox.size(); tx_read++ ) { note_packet( tx.outbox[ tx_read ] ); route( to_rx, tx.outbox[ tx_read ], fate( plan.data, data_no++ ), 0 ); } }
  void flush()
  {
    for ( int i = 0; i < 100000; i++ ) {
      auto r = world::events_for( tx, tx.udp, POLLOUT );
      if ( not r.empty() ) { world::resume( tx, r ); drain_tx(); deliver_data(); continue; }
      if ( tx.timeout < 0 or tx.timeout >= 1000 ) return;
      world::clock_us += 1000 * std::max( 1, tx.timeout );
      world::resume( tx, {} );
    }
    mc::fail( "the sender never stops sending" );
  }
  void deliver_data()
  {
    for ( size_t i = 0; i < to_rx.size(); ) {
      if ( to_rx[ i ].due > round ) { i++; continue; }
      const string d = to_rx[ i ].d; to_rx.erase( to_rx.begin() + i );
      const world::PacketW p = world::PacketW::read( d );
      world::clock_us += 100;
      world::deliver( rx, d, world::clock_us.load() ); mc::transition();
      for ( ; rx_read < rx.outbox.size(); rx_read++ ) {
        const world::AckW a = world::AckW::read( rx.outbox[ rx_read ] );
        route( to_tx, rx.outbox[ rx_read ], fate( plan.acks, acks_no++ ), plan.rtt );
        SentFrame & f = sent[ p.frame ];
        if ( f.whole and a.state == f.target and a.frame == p.frame and not f.decoded and std::find( a.states.begin(), a.states.end(), f.target ) != a.states.end() ) {
          f.decoded = true; exact++;
          world::settle_display( [&] { return not world::drawn.empty() and world::drawn.back() == f.picture; } );
          std::lock_guard<std::mutex> l( world::draw_m );
          mc::require( not world::drawn.empty() and world::drawn.back() == f.picture, mc::fmt( "frame %u was decoded from the state it names, but the picture shown is not the one that was encoded", p.frame ) );
          mc::state( mc::mix( f.picture, f.target ) );
        }
      }
    }
  }
  void deliver_acks()
  {
    for ( size_t i = 0; i < to_tx.size(); ) {
      if ( to_tx[ i ].due > round ) { i++; continue; }
      const string d = to_tx[ i ].d; to_tx.erase( to_tx.begin() + i );
      world::deliver( tx, d, world::clock_us.load() ); mc::transition();
    }
  }
  void run()
  {
    mc::require( own_step(), "the sender does not begin with a picture" );
    int settled_from = -1, bad_after = 0, quiet = 0; size_t frames_before = 0;
    for ( round = 0; ; round++ ) {
      world::clock_us += plan.interval;
      mc::require( not own_step(), "a picture is taken while another is encoded" );
      drain_tx(); flush(); deliver_data();
      if ( mc::replaying ) { fprintf( stderr, "round %d:", round ); for ( auto & x : sent ) fprintf( stderr, " #%u %08x->%08x %s", x.first, x.second.source, x.second.target, x.second.decoded ? "exact" : "bad" ), fprintf( stderr, " %zu bytes", x.second.bytes.size() ); fprintf( stderr, "\n" ); }
      const bool adverse = round <= last_adverse or round < plan.frames;
      /* frames sent entirely after the last loss, duplication or delay: only the first few may still fail */
      for ( ; frames_before < sent.size(); frames_before++ ) {
        auto f = sent.begin(); std::advance( f, frames_before );
        if ( adverse ) { quiet = bad_after = 0; continue; }
        quiet++;
        if ( not f->second.decoded ) { bad_after = quiet; }
      }
      if ( not adverse and settled_from < 0 ) settled_from = round;
      if ( quiet >= plan.quiet ) break;
      mc::require( round < 40 + 4 * ( plan.frames + plan.quiet ), mc::fmt( "only %d frames were sent in %d rounds after losses stopped", quiet, round - settled_from ) ); /* at most three pictures in a row are skipped */
      deliver_acks();
      mc::require( own_step(), "no picture is taken" );
    }
    const int bound = 2 + plan.rtt;
    mc::require( bad_after <= bound, mc::fmt( "the %dth frame after losses stopped was still not decoded from the state it names", bad_after ) );
    mc::count( 0, exact ); mc::count( 1, sent.size() ); mc::count( 4 + std::min( bad_after, 12 ) );
  }
};
static void execute( const Plan & p )
{
  mc::describe( describe( p ) );
  mc::isolated( [&] { Session * s = new Session( p ); s->run(); mc::sample( describe( p ) + mc::fmt( " -> %zu of %zu frames exact", s->exact, s->sent.size() ) ); } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  const bool T = mc::thorough();
  const int F = 4, E = T ? 14 : 9;
  struct Shape { int64_t interval; int rtt, camera; };
  const vector<Shape> shapes = T ? vector<Shape> { { 33000, 0, 3 }, { 33000, 1, 0 }, { 33000, 1, 3 }, { 33000, 2, 3 }, { 2000000, 0, 3 }, { 2000000, 1, 0 }, { 33000, 0, 1 }, { 33000, 1, 2 } } : vector<Shape> { { 33000, 0, 3 }, { 33000, 1, 0 }, { 2000000, 0, 3 } };
  for ( auto & sh : shapes ) {
    camera_kind = sh.camera; PW = sh.camera == 3 ? 64 : 48; PH = 48;
    const Plan base { {}, {}, F, 5, sh.interval, sh.rtt };
    const string tag = mc::fmt( " (%lld ms, %d, pictures %d)", (long long) sh.interval / 1000, sh.rtt, sh.camera );
    /* every set of lost datagrams among the first; every set of lost acknowledgements */
    mc::run( "every set of losses" + tag, 1u << E, [&]( uint64_t i ) { Plan p = base; for ( int k = 0; k < E; k++ ) if ( i >> k & 1 ) p.data[ k ] = LOSE; execute( p ); } );
    mc::run( "every set of lost acknowledgements, and one lost datagram" + tag, 8 * ( 1u << ( E - 3 ) ), [&]( uint64_t i ) { Plan p = base; p.data[ i % 8 ] = LOSE; for ( int k = 0; k < E - 3; k++ ) if ( i / 8 >> k & 1 ) p.acks[ k ] = LOSE; execute( p ); } );
    /* every pair (thorough: triple) of disturbances of any kind */
    const int n = 2 * E; const uint64_t one = uint64_t( n ) * ( N_WHAT - 1 );
    auto put = [&]( Plan & p, uint64_t x ) { const int at = x % n; const What w = What( 1 + x / n ); ( at & 1 ? p.acks : p.data )[ at / 2 ] = w; };
    mc::run( "every two disturbances" + tag, one * one, [&]( uint64_t i ) { const uint64_t a = i % one, b = i / one; if ( a > b or ( a % n == b % n and a != b ) ) return; Plan p = base; put( p, a ); put( p, b ); execute( p ); }, 4 );
    if ( T ) mc::run( "every three disturbances" + tag, one * one * one, [&]( uint64_t i ) { const uint64_t a = i % one, b = i / one % one, c = i / one / one; if ( a >= b or b >= c or a % n == b % n or b % n == c % n or a % n == c % n ) return; Plan p = base; put( p, a ); put( p, b ); put( p, c ); execute( p ); }, 64, true );
  }
  std::vector<std::pair<string, uint64_t>> ex { { "frames decoded exactly", mc::S->counters[ 0 ].load() }, { "frames sent", mc::S->counters[ 1 ].load() } };
  for ( int i = 0; i <= 12; i++ ) if ( mc::S->counters[ 4 + i ].load() ) ex.push_back( { mc::fmt( "executions whose last failing frame was the %dth after losses stopped", i ), mc::S->counters[ 4 + i ].load() } );
  return mc::finish( ex );
}
