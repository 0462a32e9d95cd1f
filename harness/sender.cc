/* P14: the real salsify-sender under every history of acknowledgements, losses and delays, within bounds.
   The program runs as it is (its main function in a thread of a fresh process), with its socket, clock and camera
   replaced; the acknowledgements are those that a receiver following the protocol could send. Afterwards a model
   that holds decoders and encoders of its own says what each step had to emit. */
#include "world.hh"
#include "encpics.hh"
#include <fcntl.h>
using std::string; using std::vector; using std::map; using std::deque;
int sender_main( int, char ** );

#include "camera_world.hh"

/* ---- what the explorer does between the sender's own steps ---- */
enum Ack { NONE, GOOD, GARBAGE, SAME, STALE, FOREIGN, LATER, UNSENT, BEYOND, FAR, N_ACKS };
static const char * ack_name[] = { "nothing", "frame received", "frame damaged", "frame damaged harmlessly", "an old acknowledgement again", "a foreign acknowledgement", "6 s pass", "an acknowledgement of the next frame, not sent yet", "an acknowledgement of a fragment that the frame does not have", "an acknowledgement of frame 4294967295" };
static const uint32_t DELAYS[] = { 100, 20000, 40000, 200000, 0, 50001, 100001, 5000, 2510, 9990 };
struct Choice { uint8_t ack, delay; };
/* what happened, written by the process that ran the sender and judged by its parent */
struct Step { char kind; int64_t clock, began; int cameras; uint32_t ack_frame, ack_frag, ack_delay, ack_state; uint16_t ack_conn; vector<uint32_t> states; vector<string> packets; vector<int64_t> left; };
static char * log_area; static const size_t LOG = 8u << 20;
struct Writer { size_t at = 8; void raw( const void * p, size_t n ) { if ( at + n > LOG ) mc::fail( "log" ); memcpy( log_area + at, p, n ); at += n; }
  template <class T> void v( T x ) { raw( &x, sizeof x ); }
  void step( const Step & s ) { v( s.kind ); v( s.clock ); v( s.began ); v( s.cameras ); v( s.ack_frame ); v( s.ack_frag ); v( s.ack_delay ); v( s.ack_state ); v( s.ack_conn ); v( s.states.size() ); for ( auto x : s.states ) v( x ); v( s.packets.size() ); for ( auto & p : s.packets ) { v( p.size() ); raw( p.data(), p.size() ); } for ( auto t : s.left ) v( t ); }
  void done() { memcpy( log_area, &at, sizeof at ); } };
struct Reader { size_t at = 8, end; Reader() { memcpy( &end, log_area, sizeof end ); }
  template <class T> T v() { T x; memcpy( &x, log_area + at, sizeof x ); at += sizeof x; return x; }
  bool more() const { return at < end; }
  Step step() { Step s; s.kind = v<char>(); s.clock = v<int64_t>(); s.began = v<int64_t>(); s.cameras = v<int>(); s.ack_frame = v<uint32_t>(); s.ack_frag = v<uint32_t>(); s.ack_delay = v<uint32_t>(); s.ack_state = v<uint32_t>(); s.ack_conn = v<uint16_t>(); size_t n = v<size_t>(); while ( n-- ) s.states.push_back( v<uint32_t>() ); n = v<size_t>(); for ( size_t left = n; left; left-- ) { size_t k = v<size_t>(); s.packets.emplace_back( log_area + at, k ); at += k; } while ( n-- ) s.left.push_back( v<int64_t>() ); return s; } };

static const uint16_t CONN = 4321;

/* ---- running the sender ---- */
struct Run {
  world::Actor a; Writer log; size_t read = 0;
  /* frames as they were sent */
  struct Sent { uint32_t source, target; uint16_t frags; }; map<uint32_t, Sent> sent;
  /* the receiver they go to */
  bool known = true; uint32_t r_state = 0; uint32_t r_initial = 0; bool r_have_initial = false; deque<uint32_t> r_complete; int64_t last_frame = -1; uint32_t garbage = 0x5bad0000;
  world::AckW last_ack, first_ack; bool any_ack = false; uint32_t last_delay = 100;
  explicit Run( const vector<string> & args ) { world::virtual_clock = true; world::start( a, "the sender", sender_main, args ); world::check_running( a ); }
  void packets( Step & s )
  {
    for ( ; read < a.outbox.size(); read++ ) {
      s.packets.push_back( a.outbox[ read ] ); s.left.push_back( a.left_at[ read ] );
      if ( a.outbox[ read ].size() < 22 ) mc::fail( "malformed datagram" );
      const world::PacketW p = world::PacketW::read( a.outbox[ read ] );
      sent[ p.frame ] = { p.source, p.target, p.frags };
      if ( not r_have_initial ) { r_have_initial = true; r_initial = r_state = p.source; }
    }
  }
  void note( char kind, int64_t began ) { Step s {}; s.kind = kind; s.began = began; s.clock = world::clock_us.load(); s.cameras = camera_calls.load(); packets( s ); log.step( s ); mc::transition(); }
  /* the sender's own next step: a picture is taken, or the encodings are ready */
  bool own_step()
  {
    vector<pollfd> f; for ( auto & x : a.asked ) if ( x.fd != a.udp and x.events ) f.push_back( x );
    if ( f.empty() ) mc::fail( "the sender waits for nothing but the network" );
    int k; do k = syscall( SYS_poll, f.data(), f.size(), 60000 ); while ( k < 0 and errno == EINTR );
    if ( k <= 0 ) mc::fail( "the sender's next step never comes (hang)" );
    vector<short> r( a.asked.size(), 0 ); bool given = false;
    for ( size_t i = 0; i < a.asked.size() and not given; i++ ) for ( auto & x : f ) if ( x.fd == a.asked[ i ].fd and ( x.revents & a.asked[ i ].events ) ) { r[ i ] = x.revents & a.asked[ i ].events; given = true; break; }
    const int before = camera_calls.load(); const int64_t began = world::clock_us.load();
    world::resume( a, r );
    const bool started = camera_calls.load() != before;
    if ( not started ) flush();
    note( started ? 's' : 'e', began );
    return started;
  }
  void flush()
  {
    for ( int i = 0; i < 100000; i++ ) {
      auto r = world::events_for( a, a.udp, POLLOUT );
      if ( not r.empty() ) { world::resume( a, r ); continue; }
      if ( a.timeout < 0 or a.timeout >= 1000 ) return;
      world::clock_us += 1000 * std::max( 1, a.timeout );
      world::resume( a, {} );
    }
    mc::fail( "the sender never stops sending" );
  }
  void send_ack( const world::AckW & k )
  {
    world::deliver( a, k.write(), world::clock_us.load() );
    Step s {}; s.kind = 'a'; s.clock = world::clock_us.load(); s.cameras = camera_calls.load(); s.ack_frame = k.frame; s.ack_frag = k.frag; s.ack_delay = k.delay; s.ack_state = k.state; s.ack_conn = k.conn; s.states = k.states; packets( s ); log.step( s ); mc::transition();
  }
  /* returns false when the choice is impossible here (the execution is another one's duplicate) */
  bool choose( const Choice & c )
  {
    world::clock_us += 20000;
    switch ( c.ack ) {
    case NONE: return c.delay == 0;
    case LATER: if ( c.delay ) return false; world::clock_us += 6000000; return true;
    case STALE: if ( not any_ack or first_ack.frame == last_ack.frame or c.delay ) return false; { auto k = first_ack; k.delay = 7; send_ack( k ); } return true;
    case UNSENT: case BEYOND: case FAR: {
      if ( c.delay or ( c.ack == BEYOND and sent.empty() ) ) return false;
      world::AckW k; k.conn = CONN; k.frame = c.ack == FAR ? UINT32_MAX : c.ack == BEYOND ? sent.rbegin()->first : sent.empty() ? 0 : sent.rbegin()->first + 1; k.frag = c.ack == BEYOND ? sent.rbegin()->second.frags : 0;
      k.delay = 5; k.state = 0x23456789; k.states = { 0xabcdef01 }; send_ack( k ); return true; }
    case FOREIGN: { if ( sent.empty() or c.delay ) return false; world::AckW k = last_ack; k.conn = CONN + 1; k.frame = sent.rbegin()->first; k.delay = 3; k.state = 0x12345678; k.states = { 0x9abcdef0 }; send_ack( k ); return true; }
    }
    if ( sent.empty() or int64_t( sent.rbegin()->first ) == last_frame ) return false;
    const uint32_t no = sent.rbegin()->first; const Sent & f = sent.rbegin()->second; last_frame = no;
    const bool have = f.source == r_state or f.source == r_initial or std::find( r_complete.begin(), r_complete.end(), f.source ) != r_complete.end();
    if ( c.ack == GOOD and have ) {
      if ( f.source != r_initial ) { auto i = std::find( r_complete.begin(), r_complete.end(), f.source ); r_complete.erase( r_complete.begin(), i ); }
      r_state = f.target; r_complete.push_back( r_state );
    } else if ( c.ack == SAME and have and f.source == r_state ) r_state = f.target; /* what was lost of the frame said nothing */
    else if ( c.ack == SAME ) return false;
    else r_state = ++garbage;
    world::AckW k; k.conn = CONN; k.frame = no; k.frag = c.ack == GOOD ? f.frags - 1 : 0; k.delay = DELAYS[ c.delay ]; k.state = r_state; k.states.assign( r_complete.begin(), r_complete.end() );
    if ( not any_ack ) first_ack = k;
    any_ack = true; last_ack = k; send_ack( k );
    return true;
  }
};

/* ---- the model ---- */
struct Known { uint32_t hash; std::shared_ptr<Encoder> encoder; std::shared_ptr<Decoder> decoder; uint64_t id; };
struct Encoded { Bytes frame; std::shared_ptr<Encoder> after; uint32_t target; };
static map<std::tuple<uint64_t, int, int>, Encoded> cache; /* encodings already made by this process, by encoder, picture, quantizer */
static map<uint64_t, Known> pool; static uint64_t next_id = 1; static map<std::tuple<uint64_t, int, int>, uint64_t> child;

struct Model {
  const bool conventional;
  Known root; uint32_t initial;
  map<uint32_t, Known> encoders; deque<uint32_t> states; /* sent, oldest first, without those forgotten */
  map<uint32_t, Decoder> decoders;
  bool acked = false; uint32_t acked_state = 0; vector<uint32_t> complete; uint64_t last_seq = UINT64_MAX; uint32_t delay = UINT32_MAX;
  bool has_assumed = false; uint32_t assumed = 0; int64_t conservative_until = 0;
  vector<uint64_t> cumulative; uint32_t frame_no = 0; int skipped = 0, q = 64;
  int64_t last_frame_at = 1600000000ll * 1000000; bool encoding = false; uint32_t source = 0; int picture_no = 0; int cameras = 0;
  explicit Model( bool conv ) : conventional( conv )
  {
    if ( not pool.count( 0 ) ) { Known k; k.encoder = std::make_shared<Encoder>( PW, PH, false, REALTIME_QUALITY ); k.id = 0; k.hash = k.encoder->minihash(); pool[ 0 ] = k; }
    root = pool[ 0 ]; initial = root.hash; encoders[ initial ] = root; decoders.emplace( initial, Decoder( PW, PH ) );
  }
  const Encoded & encoding_of( const Known & k, int pic, int quant )
  {
    const auto key = std::make_tuple( k.id, pic, quant ); auto i = cache.find( key );
    if ( i != cache.end() ) return i->second;
    Encoded e; auto enc = std::make_shared<Encoder>( *k.encoder ); e.frame = enc->encode_with_quantizer( camera_picture( pic ).get(), quant ); e.after = enc; e.target = enc->minihash();
    return cache[ key ] = e;
  }
  Known known( const Known & from, int pic, int quant )
  {
    const auto key = std::make_tuple( from.id, pic, quant );
    if ( child.count( key ) ) return pool[ child[ key ] ];
    const Encoded & e = encoding_of( from, pic, quant ); Known k; k.id = next_id++; k.encoder = e.after; k.hash = e.target; child[ key ] = k.id; return pool[ k.id ] = k;
  }
  static int clampq( int x ) { return std::min( 127, std::max( 3, x ) ); }
  void ack( const Step & s )
  {
    mc::require( s.packets.empty(), "an acknowledgement made the sender send" );
    if ( s.ack_conn != CONN ) return;
    if ( s.ack_frame >= cumulative.size() or ( s.ack_frame ? cumulative.at( s.ack_frame - 1 ) : 0 ) + s.ack_frag >= cumulative.at( s.ack_frame ) ) return; /* never sent */
    const uint64_t seq = ( s.ack_frame ? cumulative.at( s.ack_frame - 1 ) : 0 ) + s.ack_frag;
    if ( last_seq != UINT64_MAX and seq < last_seq ) return;
    last_seq = seq; delay = s.ack_delay; acked = true; acked_state = s.ack_state; complete = s.states;
  }
  /* the state to build on when what the receiver has is not known: the latest it reported complete, which the sender still has */
  uint32_t sure() const { for ( auto i = complete.rbegin(); i != complete.rend(); i++ ) if ( encoders.count( *i ) ) return *i; return initial; }
  void start( const Step & s )
  {
    mc::require( s.packets.empty(), "the sender sends while it takes a picture" );
    mc::require( s.cameras == cameras + 1, "more than one picture taken at a time" ); cameras = s.cameras; picture_no = cameras - 1;
    mc::require( not encoding, "two pictures at a time" );
    if ( acked and acked_state != initial and encoders.count( acked_state ) )
      while ( not states.empty() and states.front() != acked_state and states.front() != assumed ) { const uint32_t h = states.front(); states.pop_front(); if ( std::find( states.begin(), states.end(), h ) == states.end() ) encoders.erase( h ); }
    if ( s.clock < conservative_until ) source = sure();
    else if ( acked and not encoders.count( acked_state ) ) { conservative_until = s.clock + 5000000; source = sure(); mc::count( 0 ); }
    else source = has_assumed ? assumed : initial;
    encoding = true;
  }
  void end( const Step & s )
  {
    mc::require( encoding, "a frame was sent that was never started" ); encoding = false;
    const Known from = encoders.at( source );
    size_t room = SIZE_MAX;
    if ( delay != UINT32_MAX ) { const int64_t n = int64_t( 100000 / std::max( 1u, delay ) ) - int64_t( cumulative.back() - last_seq ); room = n > 0 ? 1400 * n : 0; }
    world::PacketW first; Bytes got;
    if ( not s.packets.empty() ) {
      first = world::PacketW::read( s.packets[ 0 ] );
      for ( size_t i = 0; i < s.packets.size(); i++ ) {
        const world::PacketW p = world::PacketW::read( s.packets[ i ] );
        mc::require( p.conn == CONN and p.frame == first.frame and p.source == first.source and p.target == first.target and p.frags == s.packets.size() and p.frag == i, "the datagrams of a frame are not in order, or disagree" );
        mc::require( s.packets[ i ].size() <= 1422, "a datagram is too large" );
        mc::require( p.since == ( i ? 0 : uint32_t( s.began - last_frame_at ) ), mc::fmt( "datagram %zu announces a pause of %u us, and the last frame was sent %ld us before", i, p.since, s.began - last_frame_at ) );
        /* a fifth of the reported delay from one to the next, but at least half a millisecond and at most two */
        const int64_t due = s.began + int64_t( i ) * std::min( 2000u, std::max( 500u, delay / 5 ) );
        mc::require( s.left[ i ] > due - 1000 and s.left[ i ] <= due + 1000, mc::fmt( "datagram %zu of the frame leaves after %ld us, %ld are due", i, s.left[ i ] - s.began, due - s.began ) );
        got.insert( got.end(), p.payload.begin(), p.payload.end() );
      }
    }
    int chosen = -1, quant[ 2 ] = { clampq( q - 17 ), clampq( q + 23 ) };
    if ( not conventional ) {
      const Encoded * opt[ 2 ] = { &encoding_of( from, picture_no, quant[ 0 ] ), &encoding_of( from, picture_no, quant[ 1 ] ) };
      size_t left = SIZE_MAX;
      for ( int i = 0; i < 2; i++ ) if ( opt[ i ]->frame.size() <= room and room - opt[ i ]->frame.size() < left ) { left = room - opt[ i ]->frame.size(); chosen = i; }
      if ( chosen < 0 and skipped >= 3 ) { chosen = 1; mc::count( 3 ); }
      if ( chosen < 0 ) { mc::require( s.packets.empty(), mc::fmt( "a frame of %zu bytes was sent although only %zu fit, after %d skipped", got.size(), room, skipped ) ); skipped++; mc::count( 1 ); return; }
      mc::require( not s.packets.empty(), mc::fmt( "nothing was sent although a frame of %zu bytes was to be (room for %zu, %d skipped)", opt[ chosen ]->frame.size(), room, skipped ) );
    } else mc::require( not s.packets.empty(), "nothing was sent" );
    mc::require( first.frame == frame_no, mc::fmt( "frame number %u, expected %u", first.frame, frame_no ) );
    mc::require( first.source == source, mc::fmt( "the frame builds on state %08x, the protocol prescribes %08x%s", first.source, source, source == initial ? " (initial)" : source == assumed ? " (last sent)" : " (completed)" ) );
    Decoder d = decoders.at( source );
    d.get_frame_output( Chunk( got ) );
    mc::require( d.minihash() == first.target, "the frame does not lead from the state it names to the state it names" );
    Known to;
    if ( not conventional ) {
      const Encoded & e = encoding_of( from, picture_no, quant[ chosen ] );
      mc::require( got == e.frame, mc::fmt( "the frame sent has %zu bytes; the one that fits best (room for %zu) has %zu, the other %zu", got.size(), room, e.frame.size(), encoding_of( from, picture_no, quant[ 1 - chosen ] ).frame.size() ) );
      to = known( from, picture_no, quant[ chosen ] ); q = quant[ chosen ]; mc::count( 4 + chosen );
    } else to.hash = first.target;
    if ( source != assumed and has_assumed ) mc::count( 2 );
    decoders.erase( first.target ); decoders.emplace( first.target, d );
    assumed = first.target; has_assumed = true; encoders.insert( { first.target, to } ); states.push_back( first.target );
    cumulative.push_back( ( cumulative.empty() ? 0 : cumulative.back() ) + s.packets.size() );
    frame_no++; skipped = 0; last_frame_at = s.began;
    mc::state( mc::mix( mc::mix( mc::mix( first.target, q ), frame_no ), conservative_until > s.clock ) );
  }
};

/* one execution: rounds of [after the encodings are ready][while encoding] choices */
struct Mode2 { const char * name; vector<string> args; bool conventional; };
static const Mode2 MODES[] = { { "s2", {}, false }, { "s1", { "--mode", "s1" }, false }, { "conventional", { "--mode", "conventional" }, true } };
static void execute( int mode, int cam, const vector<std::pair<Choice, Choice>> & rounds )
{
  camera_kind = cam;
  string w = mc::fmt( "mode %s, camera %d:", MODES[ mode ].name, cam );
  auto name = [&]( const Choice & c ) { return c.ack == NONE ? string( "-" ) : string( ack_name[ c.ack ] ) + ( c.delay ? mc::fmt( " (delay %u)", DELAYS[ c.delay ] ) : string() ); };
  for ( auto & r : rounds ) w += " frame; " + name( r.first ) + "; next started; " + name( r.second ) + ";";
  mc::describe( w );
  if ( not log_area ) log_area = static_cast<char *>( mmap( nullptr, LOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  memset( log_area, 0, 8 );
  mc::isolated( [&] {
    vector<string> args { "salsify-sender" }; args.insert( args.end(), MODES[ mode ].args.begin(), MODES[ mode ].args.end() ); for ( const char * x : { "127.0.0.1", "4000", "4321" } ) args.push_back( x );
    Run * r = new Run( args );
    bool started = r->own_step(); mc::require( started, "the sender does not begin with a picture" );
    for ( auto & c : rounds ) {
      r->own_step();
      if ( not r->choose( c.first ) ) return;
      r->own_step();
      if ( not r->choose( c.second ) ) return;
    }
    r->own_step(); r->own_step(); r->own_step();
    r->log.done();
  } );
  Reader log; if ( log.end == 0 ) { mc::count( 6 ); return; }
  if ( cache.size() > 3000 ) { cache.clear(); child.clear(); const Known k = pool[ 0 ]; pool.clear(); pool[ 0 ] = k; }
  Model m( MODES[ mode ].conventional );
  while ( log.more() ) { const Step s = log.step(); if ( s.kind == 'a' ) m.ack( s ); else if ( s.kind == 's' ) m.start( s ); else m.end( s ); }
  mc::sample( w + mc::fmt( " -> %u frames", m.frame_no ) );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  const bool T = mc::thorough();
  struct Space { const char * name; int mode, cam, rounds; vector<Choice> after, during; };
  const vector<Choice> full { { NONE, 0 }, { GOOD, 0 }, { GOOD, 1 }, { GOOD, 2 }, { GOOD, 3 }, { GARBAGE, 0 }, { GARBAGE, 2 }, { SAME, 0 }, { STALE, 0 }, { FOREIGN, 0 }, { LATER, 0 }, { UNSENT, 0 }, { BEYOND, 0 }, { GOOD, 4 } };
  const vector<Choice> basic { { NONE, 0 }, { GOOD, 0 }, { GARBAGE, 0 }, { LATER, 0 } }, none { { NONE, 0 } };
  const vector<Choice> some { { NONE, 0 }, { GOOD, 2 }, { GARBAGE, 0 }, { STALE, 0 } };
  const vector<Choice> rates { { NONE, 0 }, { GOOD, 0 }, { GOOD, 1 }, { GOOD, 2 }, { GOOD, 3 } };
  const vector<Choice> unsent { { NONE, 0 }, { GOOD, 4 }, { GOOD, 2 }, { UNSENT, 0 }, { BEYOND, 0 }, { FAR, 0 }, { LATER, 0 } };
  const vector<Choice> edges { { NONE, 0 }, { GOOD, 0 }, { GOOD, 1 }, { GOOD, 2 }, { GOOD, 3 }, { GOOD, 5 }, { GOOD, 6 } };
  const vector<Choice> bare { { NONE, 0 }, { GOOD, 4 }, { LATER, 0 }, { UNSENT, 0 } };
  const vector<Choice> recover { { NONE, 0 }, { GOOD, 0 }, { GARBAGE, 0 }, { SAME, 0 }, { LATER, 0 } };
  vector<Space> S {
    { "all acknowledgements, also while encoding", 0, 0, T ? 3 : 2, full, some },
    { "all acknowledgements", 0, 0, T ? 5 : 3, full, none },
    { "recovery", 0, 0, T ? 6 : 5, recover, none },
    { "recovery, while encoding", 0, 0, T ? 4 : 3, basic, basic },
    { "capacity", 0, 0, T ? 6 : 5, rates, none },
    { "pacing", 0, 0, T ? 5 : 3, { { NONE, 0 }, { GOOD, 0 }, { GOOD, 7 }, { GOOD, 8 }, { GOOD, 9 }, { LATER, 0 } }, none },
    { "capacity, while encoding", 0, 0, T ? 5 : 4, none, edges },
    { "every picture twice", 0, 1, T ? 5 : 4, recover, none },
    { "still scene", 0, 2, T ? 6 : 4, recover, none },
    { "one encoding at a time", 1, 0, T ? 4 : 3, full, none },
    { "conventional", 2, 0, T ? 4 : 3, basic, basic },
    { "conventional, all acknowledgements", 2, 0, T ? 3 : 2, full, T ? unsent : bare },
    { "acknowledgements of what was not sent", 0, 0, T ? 3 : 2, unsent, T ? unsent : bare } };
  for ( auto & s : S ) {
    const uint64_t a = s.after.size(), d = s.during.size(); uint64_t n = 1; for ( int i = 0; i < s.rounds; i++ ) n *= a * d;
    mc::run( mc::fmt( "%s, %d rounds", s.name, s.rounds ), n, [&]( uint64_t i ) {
      mc::Digits g( i ); vector<std::pair<Choice, Choice>> r; for ( int k = 0; k < s.rounds; k++ ) { const Choice x = s.after[ g( a ) ]; r.push_back( { x, s.during[ g( d ) ] } ); }
      execute( s.mode, s.cam, r );
    }, 4 );
  }
  /* skipping: no acknowledgement comes any more, and none of the encodings fits */
  mc::run( "long silence", T ? 4 * 4 * 4 * 4 : 4 * 4, [&]( uint64_t i ) {
    mc::Digits g( i ); vector<std::pair<Choice, Choice>> r;
    for ( int k = 0; k < ( T ? 4 : 2 ); k++ ) r.push_back( { { GOOD, uint8_t( g( 4 ) ) }, { NONE, 0 } } );
    for ( int k = 0; k < ( T ? 24 : 14 ); k++ ) r.push_back( { { NONE, 0 }, { NONE, 0 } } );
    execute( 0, 0, r );
  } );
  return mc::finish( { { "recoveries begun", mc::S->counters[ 0 ].load() }, { "frames skipped", mc::S->counters[ 1 ].load() }, { "frames built on another than the last sent state", mc::S->counters[ 2 ].load() }, { "frames forced after three skipped", mc::S->counters[ 3 ].load() },
    { "fine encodings sent", mc::S->counters[ 4 ].load() }, { "coarse encodings sent", mc::S->counters[ 5 ].load() }, { "choices that were not possible", mc::S->counters[ 6 ].load() } } );
}
