/* P13: the real salsify-receiver under every order, loss and duplication of datagrams, within bounds.
   The program runs as it is (its main function in a thread of a fresh process), with its socket and its
   window replaced; a model with decoders of its own says what each datagram may cause. */
#define WORLD_WATCH_DISPLAY
#include "world.hh"
#include "player.hh"
#include <cmath>
#include <set>
using namespace vp8;
using std::string; using std::vector; using std::map; using std::set;
int receiver_main( int, char ** );

static const int PW = 32, PH = 32; typedef vector<uint8_t> Bytes;

/* ---- sessions: the frames a sender could send, and the datagrams they travel in ---- */
struct SentFrame { int source; char kind; uint32_t source_hash, target_hash; Bytes bytes; vector<string> fragments; };
struct Session { string name; vector<SentFrame> frames; struct D { int frame, frag; }; vector<D> packets; };

static Frame frame_of( char kind, int seed )
{
  Frame f;
  switch ( kind ) {
  case 'K': f = noisy_key( PW, PH, 900 + seed, 5 ); break;
  case 'A': case 'B': f = noisy_inter( PW, PH, 910 + seed * 2 + ( kind == 'B' ), 3 ); break;
  case 'G': f = noisy_inter( PW, PH, 940 + seed, 3 ); f.refresh_golden = true; break;
  case 'R': case 'Z': case 'T': {
    f = noisy_inter( PW, PH, 950, 3 ); f.level = 0;
    for ( auto & m : f.mb ) { m = MB(); m.ref = kind == 'R' ? 2 : 1; m.mvmode = ZERO; m.skip = true; }
    if ( kind == 'T' ) { f.mb[ 0 ].skip = false; f.mb[ 0 ].c[ 24 ][ 0 ] = 9; }
    break; }
  }
  f.refresh_entropy = true; f.coef.clear(); f.y_prob_update = f.uv_prob_update = false; for ( auto & c : f.mv_prob ) for ( auto & x : c ) x = OptI();
  return f;
}
static Bytes bytes_of( char kind, int seed ) { Gen g; return emit( frame_of( kind, seed ), g ); }
static vector<string> cut( const Bytes & b, char kind, int n )
{
  const string s( b.begin(), b.end() );
  if ( n == 1 ) return { s };
  if ( kind == 'Z' or kind == 'R' or kind == 'T' ) return { s.substr( 0, s.size() - 1 ), s.substr( s.size() - 1 ) }; /* the last byte says nothing */
  const size_t a = s.size() * 2 / 5, c = s.size() * 3 / 4;
  if ( n == 2 ) return { s.substr( 0, c ), s.substr( c ) };
  return { s.substr( 0, a ), s.substr( a, c - a ), s.substr( c ) };
}
/* choices: (source, kind) with source -1 the initial state, else the frame whose target state it is */
static bool build( Session & s, const vector<std::pair<int, char>> & choice, const vector<int> & fragments )
{
  vector<Decoder> after; const Decoder initial( PW, PH );
  s.name = "";
  for ( size_t i = 0; i < choice.size(); i++ ) {
    SentFrame f; f.source = choice[ i ].first; f.kind = choice[ i ].second;
    Decoder d = f.source < 0 ? initial : after[ f.source ];
    f.source_hash = d.minihash();
    f.bytes = bytes_of( f.kind, f.kind == 'R' or f.kind == 'Z' ? 0 : i );
    d.get_frame_output( Chunk( f.bytes ) );
    f.target_hash = d.minihash(); after.push_back( d );
    /* one name for each situation */
    for ( size_t j = 0; j < i; j++ ) if ( f.source > int( j ) and s.frames[ j ].target_hash == f.source_hash ) return false;
    f.fragments = cut( f.bytes, f.kind, fragments[ i ] );
    for ( size_t k = 0; k < f.fragments.size(); k++ ) s.packets.push_back( { int( i ), int( k ) } );
    s.name += mc::fmt( "%s%c(%d)x%zu", i ? " " : "", f.kind, f.source, f.fragments.size() );
    s.frames.push_back( f );
  }
  return true;
}

/* ---- the model ---- */
struct Model {
  FramePlayer player { PW, PH }; const uint32_t initial; uint32_t current; uint64_t next = 0;
  map<uint32_t, Decoder> held;                       /* every state ever completed, and the initial one */
  vector<uint32_t> order; map<uint32_t, int> last_at; int referred = -1; /* completions; which are not older than what the sender referred to */
  map<uint32_t, map<int, string>> parts;
  vector<uint64_t> shown; set<uint32_t> promised; vector<uint32_t> advertised; bool acked_any = false;
  Model() : initial( player.current_decoder().minihash() ), current( initial ) { player.set_error_concealment( true ); held.emplace( initial, player.current_decoder() ); }
  bool must( uint32_t h ) const { if ( h == initial or promised.count( h ) ) return true; auto i = last_at.find( h ); return i != last_at.end() and i->second >= referred; }
  static void decode( FramePlayer & p, const string & bytes, vector<uint64_t> & shown ) { if ( bytes.empty() ) return; auto r = p.decode( Chunk( reinterpret_cast<const uint8_t *>( bytes.data() ), bytes.size() ) ); if ( r.initialized() ) shown.push_back( raster_digest( r.get() ) ); }
  double average = -1; uint64_t last_stamp = 0;       /* of the time between accepted datagrams that the sender did not announce */
  struct Outcome { FramePlayer player; vector<uint64_t> shown; uint32_t state; bool from_source; };

  /* what the datagram must cause, given the acknowledgement it caused (nullptr: none) */
  void deliver( const world::PacketW & p, const world::AckW * ack, uint64_t stamp )
  {
    if ( p.frame < next ) { mc::require( ack == nullptr, "a datagram of an earlier frame was acknowledged" ); return; }
    mc::require( ack != nullptr, "an accepted datagram was not acknowledged exactly once" );
    mc::require( ack->conn == 1337 and ack->frame == p.frame and ack->frag == p.frag, "the acknowledgement is not that of the datagram" );
    average = average < 0 ? 0 : 0.1 * std::max<double>( 0, double( stamp - last_stamp ) - p.since ) + 0.9 * average; last_stamp = stamp;
    mc::require( fabs( ack->delay - average ) <= 1.001, mc::fmt( "the delay reported is %u us, the average %.1f us", ack->delay, average ) );
    if ( p.frame > next ) {
      for ( auto i = parts.begin(); i != parts.end() and i->first < p.frame; i = parts.erase( i ) ) {
        string got; for ( int k = 0; i->second.count( k ); k++ ) got += i->second[ k ];
        decode( player, got, shown );
      }
      next = p.frame; current = player.current_decoder().minihash();
    }
    parts[ p.frame ][ p.frag ] = p.payload;
    if ( parts[ p.frame ].size() == p.frags ) {
      string whole; for ( auto & x : parts[ p.frame ] ) whole += x.second;
      parts.erase( p.frame ); next++;
      vector<Outcome> may;
      auto add = [&]( const Decoder * from ) {
        Outcome o { player, {}, 0, from or current == p.source };
        if ( from ) { Decoder d = *from; o.player.set_decoder( d ); }
        decode( o.player, whole, o.shown ); o.state = o.player.current_decoder().minihash(); may.push_back( o );
      };
      const auto h = held.find( p.source );
      if ( current == p.source or h == held.end() ) add( nullptr );
      else { add( &h->second ); if ( not must( p.source ) ) add( nullptr ); }
      const Outcome * as = nullptr;
      for ( auto & o : may ) if ( not as and o.state == ack->state ) as = &o;
      if ( not as ) mc::fail( mc::fmt( "the state acknowledged after a complete frame is %08x, but from the state it names the frame leads to %08x%s", ack->state, may[ 0 ].state, may[ 0 ].state == p.target ? " (its target)" : "" ) );
      if ( as->from_source and p.source != initial ) { int at = last_at.count( p.source ) ? last_at[ p.source ] : int( order.size() ); if ( at > referred ) { referred = at; promised.clear(); } }
      player = as->player; current = as->state; shown.insert( shown.end(), as->shown.begin(), as->shown.end() );
      if ( current == p.target and current != initial ) { last_at[ current ] = order.size(); order.push_back( current ); held.erase( current ); held.emplace( current, player.current_decoder() ); }
    }
    mc::require( ack->state == current, mc::fmt( "the acknowledged state is %08x, the true one %08x", ack->state, current ) );
    for ( uint32_t s : ack->states ) mc::require( held.count( s ), mc::fmt( "a state is advertised that was never completed: %08x", s ) );
    for ( auto & x : last_at ) if ( x.second >= referred ) mc::require( std::find( ack->states.begin(), ack->states.end(), x.first ) != ack->states.end(), mc::fmt( "the completed state %08x is no longer advertised, though the sender referred to none newer", x.first ) );
    if ( not ack->states.empty() ) mc::require( ack->states.back() == order.back(), "the state advertised as the latest is not the one completed last" );
    advertised = ack->states; acked_any = true;
  }
};

/* ---- one execution ---- */
struct Run {
  world::Actor receiver; Model model; int64_t stamp = 1700000000ll * 1000000; uint32_t frame_base;
  explicit Run( uint32_t base = 0 ) : frame_base( base ) { world::start( receiver, "the receiver", receiver_main, { "salsify-receiver", "4000", std::to_string( PW ), std::to_string( PH ) } ); world::check_running( receiver ); }
  void deliver( const world::PacketW & p, uint64_t gap = 700 )
  {
    const size_t before = receiver.outbox.size();
    stamp += gap;
    world::deliver( receiver, p.write(), stamp );
    mc::transition();
    const size_t sent = receiver.outbox.size() - before;
    mc::require( sent <= 1, "a datagram was acknowledged more than once" );
    world::AckW ack; if ( sent ) {
      ack = world::AckW::read( receiver.outbox.back() );
      mc::require( receiver.dest.back().size() >= sizeof( sockaddr_in6 ) and memcmp( receiver.dest.back().data(), &receiver.peer, sizeof receiver.peer ) == 0, "the acknowledgement does not go to the sender of the datagram" );
      mc::require( ack.write() == receiver.outbox.back(), "malformed acknowledgement" );
    }
    model.deliver( p, sent ? &ack : nullptr, stamp );
    mc::state( mc::mix( mc::mix( model.current, model.next ), mc::hash_bytes( model.advertised.data(), model.advertised.size() * 4 ) ) );
  }
  void packet( const Session & s, int i, uint64_t gap = 700, int64_t since = -1 )
  {
    const auto & d = s.packets[ i ]; const SentFrame & f = s.frames[ d.frame ];
    world::PacketW p; p.source = f.source_hash; p.target = f.target_hash; p.frame = frame_base + d.frame; p.frag = d.frag; p.frags = f.fragments.size(); p.since = d.frag ? 0 : 33000; p.payload = f.fragments[ d.frag ]; if ( since >= 0 ) p.since = since;
    deliver( p, gap );
  }
  /* every advertised state can be referred to, oldest first; then the pictures */
  void finish( const Session & s )
  {
    const vector<uint32_t> adv = model.advertised; uint32_t no = std::max<uint64_t>( model.next, frame_base + s.frames.size() ) + 1;
    const Bytes b = bytes_of( 'B', 7 );
    for ( uint32_t h : adv ) model.promised.insert( h );
    for ( size_t i = 0; i < adv.size(); i++ ) {
      if ( std::find( adv.begin() + i + 1, adv.end(), adv[ i ] ) != adv.end() ) continue; /* its last mention */
      Decoder d = model.held.at( adv[ i ] ); d.get_frame_output( Chunk( b ) );
      world::PacketW p; p.source = adv[ i ]; p.target = d.minihash(); p.frame = no++; p.payload = string( b.begin(), b.end() );
      const auto rest = model.promised; deliver( p ); model.promised = rest; mc::count( 2 );
      mc::require( model.current == p.target, "a frame that starts from an advertised state was not decoded from it" );
    }
    world::settle_display( [&] { return world::drawn == model.shown; } );
    std::lock_guard<std::mutex> l( world::draw_m );
    if ( world::drawn != model.shown ) {
      size_t i = 0; while ( i < world::drawn.size() and i < model.shown.size() and world::drawn[ i ] == model.shown[ i ] ) i++;
      mc::fail( mc::fmt( "%zu pictures were shown, expected %zu; the first %zu agree", world::drawn.size(), model.shown.size(), i ) );
    }
    mc::count( 0, world::drawn.size() ); mc::count( 1, adv.size() );
  }
};
static void execute( const Session & s, const vector<int> & seq, uint32_t base = 0 )
{
  string w = s.name + " deliver:"; for ( int i : seq ) w += mc::fmt( " %d.%d", s.packets[ i ].frame, s.packets[ i ].frag );
  if ( base ) w += mc::fmt( " (first frame is number %u)", base );
  mc::describe( w );
  mc::isolated( [&] { Run * r = new Run( base ); for ( int i : seq ) r->packet( s, i ); r->finish( s ); mc::sample( w + mc::fmt( " -> %zu acknowledgements, %zu pictures", r->receiver.outbox.size(), r->model.shown.size() ) ); } );
}

static vector<Session> all_sessions( int depth, const char * kinds, const vector<vector<int>> & fragment_patterns )
{
  vector<Session> out; vector<std::pair<int, char>> c { { -1, 'K' } };
  std::function<void()> go = [&] {
    if ( int( c.size() ) == depth ) { for ( auto & fp : fragment_patterns ) { Session s; if ( build( s, c, fp ) ) out.push_back( s ); } return; }
    for ( int src = -1; src < int( c.size() ); src++ ) for ( const char * k = kinds; *k; k++ ) {
      if ( ( *k == 'K' ) != ( src < 0 ) ) continue;
      c.push_back( { src, *k } ); go(); c.pop_back();
    }
  };
  go(); return out;
}
static Session session( const vector<std::pair<int, char>> & c, const vector<int> & fr ) { Session s; if ( not build( s, c, fr ) ) throw std::logic_error( "session" ); return s; }

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  const bool T = mc::thorough();
  /* every sequence of deliveries of a session's datagrams */
  {
    vector<Session> S {
      session( { { -1, 'K' }, { 0, 'A' }, { 1, 'B' } }, { 2, 2, 2 } ),
      session( { { -1, 'K' }, { 0, 'A' }, { 1, 'R' }, { 0, 'G' } }, { 1, 1, 2, 2 } ),
      session( { { -1, 'K' }, { 0, 'A' }, { 0, 'B' }, { 1, 'G' } }, { 1, 2, 1, 2 } ),
      session( { { -1, 'K' }, { 0, 'T' }, { 1, 'A' }, { 0, 'B' } }, { 1, 2, 2, 1 } ),
      session( { { -1, 'K' }, { 0, 'Z' }, { 0, 'A' }, { -1, 'K' } }, { 2, 2, 1, 1 } ),
      session( { { -1, 'K' }, { 0, 'A' }, { 0, 'R' } }, { 3, 2, 1 } ),
      session( { { -1, 'K' }, { 0, 'A' }, { 1, 'R' }, { 0, 'A' }, { 1, 'B' }, { 3, 'R' } }, { 1, 1, 1, 1, 1, 1 } ),
      session( { { -1, 'K' }, { 0, 'A' }, { 1, 'B' }, { 2, 'G' }, { 1, 'A' }, { 3, 'B' } }, { 1, 1, 1, 1, 1, 1 } ) };
    for ( auto & s : S ) {
      const int depth = T ? 7 : 5; const uint64_t n = s.packets.size(); uint64_t total = 1; for ( int i = 0; i < depth; i++ ) total *= n;
      mc::run( mc::fmt( "all sequences of %d deliveries: ", depth ) + s.name, total, [&]( uint64_t i ) { mc::Digits d( i ); vector<int> q; for ( int k = 0; k < depth; k++ ) q.push_back( d( n ) ); execute( s, q ); }, 8 );
    }
  }
  /* every session, every loss, and one datagram late or twice */
  {
    const vector<Session> S = T ? all_sessions( 4, "KABGRZT", { { 2, 1, 2, 1 }, { 1, 2, 1, 2 }, { 1, 1, 1, 1 } } ) : all_sessions( 4, "KARZT", { { 1, 1, 2, 1 } } );
    struct Case { int s; uint32_t lost; int what, at, to; }; vector<Case> C;
    for ( size_t s = 0; s < S.size(); s++ ) {
      const int n = S[ s ].packets.size();
      for ( uint32_t lost = 0; lost < ( 1u << n ); lost++ ) C.push_back( { int( s ), lost, 0, 0, 0 } );
      for ( int at = 0; at < n; at++ ) for ( int to = at + 1; to < n; to++ ) for ( int what : { 1, 2 } ) C.push_back( { int( s ), 0, what, at, to } );
      if ( T ) for ( uint32_t l = 0; l < uint32_t( n ); l++ ) for ( int at = 0; at < n; at++ ) for ( int to = at + 1; to < n; to++ ) for ( int what : { 1, 2 } ) C.push_back( { int( s ), 1u << l, what, at, to } );
    }
    mc::run( mc::fmt( "%zu sessions of 4 frames: every loss, every delay and duplication", S.size() ), C.size(), [&]( uint64_t i ) {
      const Case & c = C[ i ]; const Session & s = S[ c.s ]; const int n = s.packets.size(); vector<int> q;
      for ( int k = 0; k < n; k++ ) {
        if ( not ( c.lost >> k & 1 ) and not ( c.what == 1 and k == c.at ) ) q.push_back( k );
        if ( c.what and k == c.to ) q.push_back( c.at );
      }
      execute( s, q );
    }, 8 );
  }
  /* when datagrams arrive, and which pauses the sender announces */
  {
    const Session s = session( { { -1, 'K' }, { 0, 'A' }, { 1, 'B' } }, { 2, 2, 2 } );
    static const uint64_t GAPS[] = { 0, 1, 700, 33000, 200001, 1500000, 5000000000 }; static const int64_t PAUSES[] = { 0, 700, 33000, 2000000000 };
    const unsigned ng = T ? 7 : 6, depth = T ? 4 : 3; uint64_t n = 6; for ( unsigned k = 0; k < depth; k++ ) n *= ng * 4;
    mc::run( "arrival times and announced pauses", n, [&]( uint64_t i ) {
      mc::Digits d( i ); const int order = d( 6 ); vector<std::pair<uint64_t, int64_t>> v; string w; for ( unsigned k = 0; k < depth; k++ ) { const uint64_t g = GAPS[ d( ng ) ]; v.emplace_back( g, PAUSES[ d( 4 ) ] ); w += mc::fmt( " %lu/%ld", v.back().first, v.back().second ); }
      static const int ORDERS[ 6 ][ 6 ] = { { 0, 1, 2, 3, 4, 5 }, { 0, 0, 0, 0, 0, 1 }, { 1, 0, 3, 2, 5, 4 }, { 0, 1, 1, 2, 0, 3 }, { 0, 2, 1, 3, 1, 4 }, { 4, 0, 5, 1, 4, 5 } };
      mc::describe( mc::fmt( "order %d, gaps/pauses", order ) + w );
      mc::isolated( [&] { Run * r = new Run; r->packet( s, ORDERS[ order ][ 0 ] ); for ( unsigned k = 0; k < depth; k++ ) r->packet( s, ORDERS[ order ][ k + 1 ], v[ k ].first, v[ k ].second ); r->packet( s, ORDERS[ order ][ depth + 1 ], 1000, 0 ); } );
    }, 8 );
  }
  /* long sessions, and frame numbers that start late */
  {
    const vector<Session> S { session( { { -1, 'K' }, { 0, 'A' }, { 1, 'B' }, { 2, 'A' }, { 3, 'R' }, { 0, 'B' }, { 5, 'A' }, { 6, 'R' } }, { 1, 1, 1, 1, 1, 1, 1, 1 } ),
                              session( { { -1, 'K' }, { 0, 'A' }, { 0, 'B' }, { 1, 'A' }, { 2, 'A' }, { 3, 'R' }, { 1, 'B' }, { 4, 'G' } }, { 1, 1, 1, 1, 1, 1, 1, 1 } ) };
    for ( auto & s : S ) for ( uint32_t base : { 0u, 5u, 70000u } ) mc::run( mc::fmt( "8 frames, every loss, first number %u: ", base ) + s.name, 256, [&]( uint64_t i ) { vector<int> q; for ( int k = 0; k < 8; k++ ) if ( not ( i >> k & 1 ) ) q.push_back( k ); execute( s, q, base ); } );
  }
  return mc::finish( { { "pictures", mc::S->counters[ 0 ].load() }, { "advertised states at the end", mc::S->counters[ 1 ].load() }, { "advertised states loaded", mc::S->counters[ 2 ].load() } } );
}
