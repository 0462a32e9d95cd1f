/* P11: a frame is rebuilt exactly from its datagrams in any order. P12: the wire format.
   Every delivery sequence up to a depth is run on the real FragmentedFrame against a set model; every datagram of
   the enumerated families is given to the real parsers and judged by an independent reading of the wire format. */
#include "mc.hh"
#include <new>
#include <memory>
#include <map>
#include <set>
#include <iostream>
#include <sstream>
#include "packet.hh"
#include "socket.hh"
#include "address.hh"
using namespace std;
using mc::fmt;

/* ---- what a parse may allocate: counted, and refused above a limit ---- */
static size_t alloc_total = 0, alloc_limit = 0;
static bool alloc_refused = false;
void * operator new( size_t n )
{
  if ( alloc_limit ) {
    alloc_total += n;
    if ( alloc_total > alloc_limit ) { alloc_refused = true; throw std::bad_alloc(); }
  }
  void * p = malloc( n ? n : 1 );
  if ( not p ) throw std::bad_alloc();
  return p;
}
void operator delete( void * p ) noexcept { free( p ); }
void operator delete( void * p, size_t ) noexcept { free( p ); }

/* ---- independent wire format ---- */
struct Fields {
  uint64_t conn = 0, src = 0, dst = 0, frame = 0, frag = 0, count = 0, time = 0;
  string payload;
};
static void put( string & s, uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) s.push_back( (char)( v >> ( 8 * i ) ) ); }
static uint64_t get( const string & s, size_t at, int n )
{ uint64_t v = 0; for ( int i = n; i-- > 0; ) v = v << 8 | (uint8_t) s[ at + i ]; return v; }
static string pack( const Fields & f )
{
  string s; put( s, f.conn, 2 ); put( s, f.src, 4 ); put( s, f.dst, 4 ); put( s, f.frame, 4 );
  put( s, f.frag, 2 ); put( s, f.count, 2 ); put( s, f.time, 4 ); return s + f.payload;
}
static bool unpack( const string & s, Fields & f )
{
  if ( s.size() < 23 ) return false;
  f.conn = get( s, 0, 2 ); f.src = get( s, 2, 4 ); f.dst = get( s, 6, 4 ); f.frame = get( s, 10, 4 );
  f.frag = get( s, 14, 2 ); f.count = get( s, 16, 2 ); f.time = get( s, 18, 4 ); f.payload = s.substr( 22 );
  return f.frag < f.count;
}
static string hex( const string & s, size_t most = 40 )
{
  string r; for ( size_t i = 0; i < s.size() and i < most; i++ ) r += fmt( "%02x", (uint8_t) s[ i ] );
  return r + ( s.size() > most ? fmt( "...(%zu bytes)", s.size() ) : "" );
}

/* a copy that ends exactly at the end of its allocation (the sanitizer build then sees any read past it) */
struct Exact {
  uint8_t * p; size_t n;
  explicit Exact( const string & s ) : p( (uint8_t *) malloc( s.size() ? s.size() : 1 ) ), n( s.size() ) { memcpy( p, s.data(), n ); }
  ~Exact() { free( p ); }
  Chunk chunk() const { return Chunk( p, n ); }
};

static void same_packet( const Packet & p, const Fields & f, const string & what )
{
  mc::require( p.valid(), what + ": an accepted datagram is not valid" );
  mc::require( p.connection_id() == f.conn, what + ": connection_id" );
  mc::require( p.source_state() == f.src, what + ": source_state" );
  mc::require( p.target_state() == f.dst, what + ": target_state" );
  mc::require( p.frame_no() == f.frame, what + ": frame_no" );
  mc::require( p.fragment_no() == f.frag, what + ": fragment_no" );
  mc::require( p.fragments_in_this_frame() == f.count, what + ": fragments_in_this_frame" );
  mc::require( p.time_since_last() == f.time, what + ": time_since_last" );
  mc::require( p.payload() == f.payload, what + ": payload" );
}

/* gives one datagram to the data-packet parser and judges what it does */
static void judge_packet( const string & s )
{
  Fields f; const bool ok = unpack( s, f );
  Exact e( s );
  alloc_total = 0; alloc_refused = false; alloc_limit = 16 * s.size() + 65536;
  bool accepted = false; string got;
  try {
    Packet p( e.chunk() );
    alloc_limit = 0;
    accepted = true;
    if ( ok ) {
      same_packet( p, f, "datagram " + hex( s ) );
      got = p.to_string();
    }
  } catch ( const mc::Violation & ) { alloc_limit = 0; throw; }
  catch ( const std::exception & ) { alloc_limit = 0; }
  alloc_limit = 0;
  mc::require( not alloc_refused, "parsing " + hex( s ) + " allocates memory out of proportion to it" );
  mc::require( accepted or not ok, "a well-formed datagram is refused: " + hex( s ) );
  mc::require( ok or not accepted, "a malformed datagram is accepted: " + hex( s ) );
  if ( ok ) mc::require( got == s, "parsed and written again, datagram " + hex( s ) + " becomes " + hex( got ) );
  mc::transition(); mc::count( ok ? 0 : 1 );
}

struct Ack { uint64_t conn = 0, frame = 0, frag = 0, delay = 0, current = 0; vector<uint64_t> states; };
static string pack( const Ack & a )
{
  string s; put( s, a.conn, 2 ); put( s, a.frame, 4 ); put( s, a.frag, 2 ); put( s, a.delay, 4 ); put( s, a.current, 4 );
  put( s, a.states.size(), 4 ); for ( auto x : a.states ) put( s, x, 4 ); return s;
}
static bool unpack( const string & s, Ack & a )
{
  if ( s.size() < 20 ) return false;
  a.conn = get( s, 0, 2 ); a.frame = get( s, 2, 4 ); a.frag = get( s, 6, 2 ); a.delay = get( s, 8, 4 ); a.current = get( s, 12, 4 );
  const uint64_t n = get( s, 16, 4 );
  if ( s.size() != 20 + 4 * n ) return false;
  a.states.clear(); for ( uint64_t i = 0; i < n; i++ ) a.states.push_back( get( s, 20 + 4 * i, 4 ) );
  return true;
}
static void same_ack( AckPacket & p, const Ack & a, const string & what )
{
  mc::require( p.connection_id() == a.conn, what + ": connection_id" );
  mc::require( p.frame_no() == a.frame, what + ": frame_no" );
  mc::require( p.fragment_no() == a.frag, what + ": fragment_no" );
  mc::require( p.avg_delay() == a.delay, what + ": avg_delay" );
  mc::require( p.current_state() == a.current, what + ": current_state" );
  const deque<uint32_t> d = p.complete_states();
  mc::require( d.size() == a.states.size(), what + ": number of complete states" );
  for ( size_t i = 0; i < d.size(); i++ ) mc::require( d[ i ] == a.states[ i ], what + ": complete state" );
}
static void judge_ack( const string & s )
{
  Ack a; const bool ok = unpack( s, a );
  Exact e( s );
  alloc_total = 0; alloc_refused = false; alloc_limit = 16 * s.size() + 65536;
  bool accepted = false; string got;
  try {
    AckPacket p( e.chunk() );
    alloc_limit = 0;
    accepted = true;
    if ( ok ) { same_ack( p, a, "acknowledgement " + hex( s ) ); got = p.to_string(); }
  } catch ( const mc::Violation & ) { alloc_limit = 0; throw; }
  catch ( const std::exception & ) { alloc_limit = 0; }
  alloc_limit = 0;
  mc::require( not alloc_refused, "parsing acknowledgement " + hex( s ) + " allocates memory out of proportion to it" );
  mc::require( accepted or not ok, "a well-formed acknowledgement is refused: " + hex( s ) );
  mc::require( ok or not accepted, "a malformed acknowledgement is accepted: " + hex( s ) );
  if ( ok ) mc::require( got == s, "parsed and written again, acknowledgement " + hex( s ) + " becomes " + hex( got ) );
  mc::transition(); mc::count( ok ? 2 : 3 );
}

static const vector<uint64_t> B16 = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff };
static const vector<uint64_t> B32 = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000,
                                      0xff000000, 0xfffffffe, 0xffffffff };

static vector<uint8_t> content( size_t n, uint32_t seed )
{
  vector<uint8_t> v( n ); uint64_t x = seed * 2654435761u + 12345;
  for ( auto & b : v ) { x = x * 6364136223846793005ull + 1442695040888963407ull; b = x >> 56; }
  return v;
}

/* ================= P12 ================= */
static void p12()
{
  /* every value of the field alphabet in every pair of fields, parsed and built */
  mc::run( "data packet fields", 7 * 7 * 17 * 17, []( uint64_t i ) {
    mc::Digits d( i ); const int a = d( 7 ), b = d( 7 ), va = d( 17 ), vb = d( 17 );
    Fields f; f.conn = 0xa1b2; f.src = 0xc3d4e5f6; f.dst = 0x01f28394; f.frame = 0x5061728f; f.frag = 0x0203; f.count = 0x9108; f.time = 0xbacadaea;
    f.payload = string( "\0payload\xff", 9 );
    uint64_t * fp[] = { &f.conn, &f.src, &f.dst, &f.frame, &f.frag, &f.count, &f.time };
    const bool w[] = { false, true, true, true, false, false, true };
    auto set = [&]( int k, int v ) { *fp[ k ] = w[ k ] ? B32[ v ] : B16[ v % B16.size() ]; };
    set( a, va ); set( b, vb );
    const string s = pack( f );
    mc::describe( "data packet " + hex( s ) );
    judge_packet( s );
    /* the same fields through the constructor of an outgoing frame (fragment 0 only exists there with a whole frame) */
    vector<uint8_t> whole( f.payload.begin(), f.payload.end() );
    FragmentedFrame out( f.conn, f.src, f.dst, f.frame, f.time, whole );
    Fields g = f; g.frag = 0; g.count = 1;
    mc::require( out.packets().size() == 1 and out.packets()[ 0 ].to_string() == pack( g ), "an outgoing packet has other bytes on the wire than its fields say" );
    mc::state( mc::hash_bytes( s.data(), s.size() ) );
    if ( i % 3001 == 0 ) mc::sample( "packet " + hex( s ) );
  }, 64 );
  mc::run( "acknowledgement fields", 5 * 5 * 17 * 17 * 5, []( uint64_t i ) {
    mc::Digits d( i ); const int a = d( 5 ), b = d( 5 ), va = d( 17 ), vb = d( 17 ), n = d( 5 );
    Ack f; f.conn = 0xa1b2; f.frame = 0xc3d4e5f6; f.frag = 0x9182; f.delay = 0x5061728f; f.current = 0xbacadaea;
    uint64_t * fp[] = { &f.conn, &f.frame, &f.frag, &f.delay, &f.current };
    const bool w[] = { false, true, false, true, true };
    auto set = [&]( int k, int v ) { *fp[ k ] = w[ k ] ? B32[ v ] : B16[ v % B16.size() ]; };
    set( a, va ); set( b, vb );
    for ( int k = 0; k < n; k++ ) f.states.push_back( B32[ ( va + 5 * k ) % 17 ] );
    const string s = pack( f );
    mc::describe( "acknowledgement " + hex( s ) );
    deque<uint32_t> st( f.states.begin(), f.states.end() );
    AckPacket p( f.conn, f.frame, f.frag, f.delay, f.current, st );
    same_ack( p, f, "constructed acknowledgement" );
    mc::require( p.to_string() == s, "an acknowledgement has other bytes on the wire than its fields say" );
    judge_ack( s );
    mc::state( mc::hash_bytes( s.data(), s.size(), 7 ) );
    if ( i % 9001 == 0 ) mc::sample( "ack " + hex( s ) );
  }, 64 );
  mc::run( "header fields of every width", 65536, []( uint64_t i ) {
    mc::describe( fmt( "header field from %lu", i ) );
    string e; put( e, i, 2 ); mc::require( Packet::put_header_field( uint16_t( i ) ) == e, "16-bit header field" );
    for ( int sh = 0; sh <= 16; sh += 8 ) { e.clear(); put( e, i << sh, 4 ); mc::require( Packet::put_header_field( uint32_t( i << sh ) ) == e, "32-bit header field" ); }
    for ( int sh = 0; sh <= 48; sh += 8 ) { e.clear(); put( e, i << sh, 8 ); mc::require( Packet::put_header_field( uint64_t( i << sh ) ) == e, "64-bit header field" ); }
    string w = e + "xyz"; put( w, i, 2 ); Exact x( w ); const Chunk c = x.chunk();
    mc::require( c( 0, 8 ).le64() == i << 48 and c( 6, 2 ).le16() == i and c( 11 ).le16() == i and c( 8, 3 ).to_string() == "xyz", "chunk accessors" );
    for ( uint64_t off : { 0ul, 5ul, 12ul, 13ul, 14ul } ) for ( uint64_t len : { 0ul, 1ul, 2ul, 8ul, 13ul, 14ul, i, i << 32, ~0ul } ) {
      bool ok = off <= 13 and len <= 13 - off, got = true;
      if ( len == ~0ul ) continue; /* lengths come from fields of at most 32 bits */
      try { got = c( off, len ).size() == len; } catch ( const std::out_of_range & ) { got = false; }
      mc::require( got == ok, "a chunk is not bounds-checked" );
    }
    mc::transition();
  }, 256 );
  /* numbers of states: every count, and every disagreement between the count and the size */
  mc::run( "acknowledgement lengths", 400, []( uint64_t n ) {
    mc::describe( fmt( "acknowledgement with %lu states", n ) );
    Ack f; f.conn = 7; f.frame = 8; f.frag = 9; f.delay = 10; f.current = 11;
    for ( uint64_t k = 0; k < n; k++ ) f.states.push_back( 0x01010101u * k + k * k );
    string s = pack( f );
    judge_ack( s );
    vector<uint64_t> counts = B32; for ( uint64_t c = n > 3 ? n - 3 : 0; c < n + 4; c++ ) counts.push_back( c );
    counts.push_back( 0x40000000 + n ); counts.push_back( 0x3fffffff ); counts.push_back( 0x20000000 ); counts.push_back( n << 8 ); counts.push_back( n << 16 );
    for ( auto c : counts ) { string t = s; for ( int k = 0; k < 4; k++ ) t[ 16 + k ] = c >> ( 8 * k ); judge_ack( t ); }
    for ( int extra = 1; extra <= 9; extra++ ) judge_ack( s + string( extra, 'x' ) );
  } );
  /* every cut and every substituted byte */
  mc::run( "cut datagrams", 2 * 1500, []( uint64_t i ) {
    mc::Digits d( i ); const int ack = d( 2 ); const size_t n = d( 1500 );
    mc::describe( fmt( "%s cut to %zu bytes", ack ? "acknowledgement" : "data packet", n ) );
    if ( ack ) {
      Ack f; f.conn = 1; f.frame = 2; f.frag = 3; f.delay = 4; f.current = 5; for ( int k = 0; k < 370; k++ ) f.states.push_back( k * 77777 );
      judge_ack( pack( f ).substr( 0, n ) );
    } else {
      Fields f; f.conn = 1; f.src = 2; f.dst = 3; f.frame = 4; f.frag = 5; f.count = 6; f.time = 7;
      const auto c = content( 1478, 3 ); f.payload = string( c.begin(), c.end() );
      judge_packet( pack( f ).substr( 0, n ) );
    }
  }, 16 );
  mc::run( "substituted bytes", 2 * 44 * 256, []( uint64_t i ) {
    mc::Digits d( i ); const int ack = d( 2 ); const size_t at = d( 44 ); const int v = d( 256 );
    mc::describe( fmt( "%s with byte %zu = %d", ack ? "acknowledgement" : "data packet", at, v ) );
    if ( ack ) {
      Ack f; f.conn = 0x1122; f.frame = 0x33445566; f.frag = 0x7788; f.delay = 0x99aabbcc; f.current = 0xddeeff00; for ( int k = 0; k < 6; k++ ) f.states.push_back( k * 0x11111111u );
      string s = pack( f ); s[ at ] = v; judge_ack( s );
    } else {
      Fields f; f.conn = 0x1122; f.src = 0x33445566; f.dst = 0x778899aa; f.frame = 0xbbccddee; f.frag = 0x0105; f.count = 0x0107; f.time = 0xff010203; f.payload = string( 22, 'p' );
      string s = pack( f ); s[ at ] = v; judge_packet( s );
    }
  }, 64 );
  /* all short byte strings with at most k bytes off a constant background */
  const int L = 30;
  mc::run( "short byte strings", 3 * L * L * L * 5 * 5, []( uint64_t i ) {
    mc::Digits d( i ); static const int bg[] = { 0, 0xff, 1 }; static const int val[] = { 0, 1, 2, 0x80, 0xff };
    const int b = bg[ d( 3 ) ]; const size_t n = d( L ), p = d( L ), q = d( L ); const int x = val[ d( 5 ) ], y = val[ d( 5 ) ];
    if ( ( p >= n and p > 0 ) or ( q >= n and q > 0 ) or q < p ) return;
    string s( n, (char) b ); if ( n ) { s[ p ] = x; s[ q ] = y; }
    mc::describe( "bytes " + hex( s ) );
    judge_packet( s ); judge_ack( s );
  }, 512 );
  /* all sizes of datagrams over a real socket */
  mc::run( "over the loopback network", 120, []( uint64_t i ) { mc::on_real_network( [&] {
    UDPSocket a, b; a.bind( Address( "127.0.0.1", 0 ) ); b.bind( Address( "127.0.0.1", 0 ) );
    const timeval patience = { 5, 0 }; setsockopt( b.fd_num(), SOL_SOCKET, SO_RCVTIMEO, &patience, sizeof patience );
    if ( i % 2 ) b.set_timestamps();
    a.connect( b.local_address() );
    if ( i < 60 ) {
      static const size_t sz[] = { 1, 2, 100, 1399, 1400, 1401, 2799, 2800, 2801, 5000, 14000, 14001 };
      const size_t n = sz[ i / 2 % 12 ]; const auto c = content( n, i );
      mc::describe( fmt( "frame of %zu bytes over the loopback network", n ) );
      FragmentedFrame out( 0x1234 + i, 0xaabbccdd, 0x11223344, i, 1000000 * i, c );
      const auto expect = out.packets();
      out.send( a );
      string whole;
      for ( size_t k = 0; k < expect.size(); k++ ) {
        const auto r = b.recv();
        mc::require( r.payload == expect[ k ].to_string(), "the datagram received is not the one that was sent" );
        mc::require( r.source_address == a.local_address(), "the datagram's source address is wrong" );
        mc::require( ( i % 2 == 0 ) == ( r.timestamp_us == uint64_t( -1 ) ), "timestamp missing" );
        whole += Packet( r.payload ).payload(); mc::transition();
      }
      mc::require( whole == string( c.begin(), c.end() ), "the frame received is not the one that was sent" );
    } else {
      const int n = i - 60; mc::describe( fmt( "acknowledgement with %d states over the loopback network", n * n ) );
      deque<uint32_t> st; for ( int k = 0; k < n * n; k++ ) st.push_back( k * 0x01020304u );
      AckPacket p( n, n * 1000, n, n * 99999, 0xfedcba98, st );
      p.sendto( a, b.local_address() );
      const auto r = b.recv();
      mc::require( r.payload == p.to_string(), "the acknowledgement received is not the one that was sent" );
      AckPacket q( r.payload ); mc::require( q.complete_states() == st, "complete states changed on the way" ); mc::transition();
    }
  } ); } );
}

/* ================= P11 ================= */
struct Session { vector<string> wire; vector<string> part; };

static void p11()
{
  /* every sequence of deliveries: N fragments, two kinds of foreign datagram taken from six, and moving the collector */
  for ( int N = 1; N <= 5; N++ ) {
    const int depth = mc::thorough() ? ( N <= 3 ? 9 : 8 ) : ( N <= 3 ? 8 : 7 );
    const int A = N + 3;
    uint64_t n = 1; for ( int i = 0; i < depth; i++ ) n *= A;
    mc::run( fmt( "all deliveries of %d fragments, depth %d", N, depth ), n, [=]( uint64_t idx ) {
      mc::Digits d( idx );
      vector<int> ops( depth ); for ( auto & o : ops ) o = d( A );
      if ( ops[ 0 ] == N + 2 ) return; /* nothing to move yet */
      Fields base; base.conn = 0x1122; base.src = 0x01020304; base.dst = 0x0a0b0c0d; base.frame = 77; base.count = N; base.time = 5;
      vector<string> part( N ); vector<Packet> pk;
      for ( int k = 0; k < N; k++ ) {
        part[ k ] = string( 1 + ( k * 2 ) % 3, 'a' + k );
        Fields f = base; f.frag = k; f.payload = part[ k ]; pk.emplace_back( Packet( pack( f ) ) );
      }
      auto foreign = [&]( int kind, int frag ) {
        Fields f = base; f.frag = frag % N; f.payload = "Z";
        switch ( kind % 5 ) {
          case 0: f.frame = 78; break; case 1: f.src ^= 0x01000000; break; case 2: f.dst ^= 1; break;
          case 3: f.conn = 0x1222; break; default: f.count = N + 1; if ( frag & 1 ) f.frag = N;
        }
        return Packet( pack( f ) );
      };
      unique_ptr<FragmentedFrame> c; set<int> got; string what;
      for ( int s = 0; s < depth; s++ ) {
        const int o = ops[ s ]; what += o < N ? fmt( " %d", o ) : o == N + 2 ? string( " move" ) : string( " foreign" );
        if ( o < N ) {
          if ( not c ) c.reset( new FragmentedFrame( 0x1122, pk[ o ] ) ); else c->add_packet( pk[ o ] );
          got.insert( o );
        } else if ( o == N + 2 ) {
          c.reset( new FragmentedFrame( move( *c ) ) );
        } else {
          const Packet p = foreign( ( o - N ) * 3 + s, s + (int) got.size() );
          if ( not c ) {
            bool refused = false;
            try { FragmentedFrame f( p.connection_id() ^ 1, p ); } catch ( const std::exception & ) { refused = true; }
            mc::require( refused, "a datagram of another session starts a frame" );
            return; /* the other kinds would start their own frame */
          }
          bool refused = false;
          try { c->add_packet( p ); } catch ( const std::exception & ) { refused = true; }
          mc::require( refused, "a datagram of another frame or session is accepted after" + what );
        }
        if ( s < depth - 1 and s != 2 ) continue; /* prefixes of this sequence are the ends of others, up to renaming: look at two points */
        string prefix; int k = 0; for ( ; k < N and got.count( k ); k++ ) prefix += part[ k ];
        const bool whole = (int) got.size() == N;
        if ( s == depth - 1 ) mc::describe( fmt( "%d fragments, deliveries:", N ) + what );
        mc::require( c->complete() == whole, "after" + what + ( whole ? ": not complete with all fragments" : ": complete with fragments missing" ) );
        mc::require( c->partial_frame() == prefix, "after" + what + ": the partial frame is not the unbroken prefix" );
        bool threw = false; string f; try { f = c->frame(); } catch ( const std::exception & ) { threw = true; }
        mc::require( threw != whole, "after" + what + ": frame() on an incomplete frame" );
        if ( whole ) mc::require( f == prefix, "after" + what + ": the frame is not what was sent" );
        threw = false; try { mc::require( c->packets().size() == (size_t) N, "packets()" ); } catch ( const mc::Violation & ) { throw; } catch ( const std::exception & ) { threw = true; }
        mc::require( threw != whole, "packets() on an incomplete frame" );
        mc::require( c->connection_id() == base.conn and c->source_state() == base.src and c->target_state() == base.dst
                     and c->frame_no() == base.frame and c->fragments_in_this_frame() == N, "the frame's identification changed" );
        uint64_t h = N * 100 + depth; for ( int g : got ) h = mc::mix( h, g + 1 ); mc::state( mc::mix( h, c->complete() ) );
      }
      mc::transition( depth );
      if ( idx % 99991 == 5 ) mc::sample( fmt( "%d fragments:", N ) + what );
    }, 256 );
  }
  /* every frame size: fragmentation, then reassembly in several orders with duplicates */
  vector<size_t> sizes; for ( size_t s = 1; s <= ( mc::thorough() ? 12000u : 6000u ); s++ ) sizes.push_back( s );
  for ( size_t k = 5; k <= 60; k++ ) for ( int e = -1; e <= 1; e++ ) sizes.push_back( k * 1400 + e );
  for ( size_t k : { 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8192 } ) for ( int e = -1; e <= 1; e++ ) sizes.push_back( k * 1400 + e );
  mc::run( "all frame sizes", sizes.size(), [&]( uint64_t i ) {
    const size_t n = sizes[ i ]; const auto whole = content( n, i );
    mc::describe( fmt( "frame of %zu bytes", n ) );
    const uint32_t time = 0xfedcba98u + i;
    FragmentedFrame out( 0x8001 + i, 0xffee0000 + i, 0x00ffee00 + i, 0x80000000u + i, time, whole );
    const size_t N = ( n + 1399 ) / 1400;
    mc::require( out.complete() and out.packets().size() == N and out.fragments_in_this_frame() == N, "the frame is not split into as few datagrams as needed" );
    vector<Packet> pk; size_t at = 0;
    for ( size_t k = 0; k < N; k++ ) {
      const string w = out.packets()[ k ].to_string();
      Fields f; mc::require( unpack( w, f ), "an outgoing datagram is malformed" );
      mc::require( f.conn == uint16_t( 0x8001 + i ) and f.src == 0xffee0000 + i and f.dst == 0x00ffee00 + i and f.frame == 0x80000000u + i
                   and f.frag == k and f.count == N and f.time == ( k ? 0 : time ), "an outgoing datagram's header is wrong" );
      mc::require( f.payload.size() <= Packet::MAXIMUM_PAYLOAD and at + f.payload.size() <= n
                   and 0 == memcmp( f.payload.data(), whole.data() + at, f.payload.size() ), "an outgoing datagram's payload is not its part of the frame" );
      at += f.payload.size();
      pk.emplace_back( Packet( Exact( w ).chunk() ) );
    }
    mc::require( at == n, "the outgoing datagrams do not cover the frame" );
    mc::require( out.frame() == string( whole.begin(), whole.end() ) and out.partial_frame() == out.frame(), "the outgoing frame is not the frame" );
    for ( int order = 0; order < 4; order++ ) {
      size_t step = order == 2 ? 7 : 1; while ( order == 2 and N % step == 0 and step < N + 20 ) step++;
      if ( order == 2 and N > 1 ) { size_t a = step, b = N; while ( b ) { size_t t = a % b; a = b; b = t; } if ( a != 1 ) step = 1; }
      vector<size_t> seq;
      for ( size_t k = 0; k < N; k++ ) seq.push_back( order == 0 ? k : order == 1 ? N - 1 - k : order == 2 ? k * step % N : ( k % 2 ? k / 2 : N - 1 - k / 2 ) );
      unique_ptr<FragmentedFrame> c; vector<bool> got( N ); size_t have = 0, pre = 0;
      for ( size_t t = 0; t < N; t++ ) {
        const size_t k = seq[ t ];
        if ( not c ) c.reset( new FragmentedFrame( uint16_t( 0x8001 + i ), pk[ k ] ) ); else c->add_packet( pk[ k ] );
        c->add_packet( pk[ k ] ); c->add_packet( pk[ seq[ t / 2 ] ] );
        if ( not got[ k ] ) { got[ k ] = true; have++; }
        while ( pre < N and got[ pre ] ) pre++;
        mc::require( c->complete() == ( have == N ), "complete() is wrong" );
        if ( N < 60 or t % 97 == 0 or t + 2 > N ) {
          const string p = c->partial_frame(); const size_t len = min( n, pre * 1400 );
          mc::require( p.size() == len and 0 == memcmp( p.data(), whole.data(), len ), "the partial frame is not the unbroken prefix" );
        }
      }
      mc::require( have == N, "harness: order does not cover all fragments" );
      mc::require( c->frame() == string( whole.begin(), whole.end() ), "the frame is not what was sent" );
      mc::transition( 3 * N );
    }
    mc::state( mc::mix( n, 4711 ) );
  }, 8 );
  /* all orders of 7 fragments (thorough 8) */
  const int M = mc::thorough() ? 8 : 7; uint64_t fact = 1; for ( int i = 2; i <= M; i++ ) fact *= i;
  mc::run( fmt( "all orders of %d fragments", M ), fact, [=]( uint64_t i ) {
    mc::Digits d( i ); vector<int> pool, seq; for ( int k = 0; k < M; k++ ) pool.push_back( k );
    for ( int k = M; k > 0; k-- ) { const int x = d( k ); seq.push_back( pool[ x ] ); pool.erase( pool.begin() + x ); }
    unique_ptr<FragmentedFrame> c; vector<bool> got( M ); string what;
    for ( int t = 0; t < M; t++ ) {
      what += fmt( " %d", seq[ t ] );
      Fields f; f.conn = 9; f.count = M; f.frag = seq[ t ]; f.payload = string( 1, 'A' + seq[ t ] ); f.frame = 1;
      const Packet p( pack( f ) );
      if ( not c ) c.reset( new FragmentedFrame( 9, p ) ); else c->add_packet( p );
      got[ seq[ t ] ] = true; string prefix; for ( int k = 0; k < M and got[ k ]; k++ ) prefix.push_back( 'A' + k );
      mc::describe( "order" + what );
      mc::require( c->complete() == ( t == M - 1 ), "complete() is wrong after" + what );
      mc::require( c->partial_frame() == prefix, "the partial frame is not the unbroken prefix after" + what );
    }
    mc::require( c->frame() == string( "ABCDEFGHIJ" ).substr( 0, M ), "the frame is not what was sent" );
    mc::transition( M );
  }, 64 );
  /* the largest numbers of fragments, and frames that cannot be sent */
  mc::run( "limits", 6, []( uint64_t i ) {
    static const size_t N[] = { 32767, 32768, 65534, 65535, 65536, 0 };
    const size_t n = N[ i ] * 1400;
    mc::describe( fmt( "frame of %zu bytes (%zu datagrams)", n, N[ i ] ) );
    const vector<uint8_t> whole = content( n, 5 );
    if ( N[ i ] == 0 or N[ i ] > 65535 ) {
      bool refused = false;
      try { FragmentedFrame out( 1, 2, 3, 4, 5, whole ); } catch ( const std::exception & ) { refused = true; }
      mc::require( refused, "a frame that cannot be described in datagrams is not refused" );
      return;
    }
    FragmentedFrame out( 1, 2, 3, 4, 5, whole );
    const auto & pk = out.packets();
    mc::require( pk.size() == N[ i ], "number of datagrams" );
    FragmentedFrame c( 1, pk.back() );
    for ( size_t k = 0; k < N[ i ]; k++ ) {
      const size_t f = k * 11 % N[ i ]; /* 11 divides none of them */
      mc::require( not c.complete() or k == N[ i ], "complete too early" );
      if ( f != N[ i ] - 1 ) c.add_packet( Packet( pk[ f ].to_string() ) );
      if ( k == N[ i ] - 2 and f != N[ i ] - 1 ) continue;
    }
    mc::require( c.complete() and c.frame() == string( whole.begin(), whole.end() ), "the frame is not what was sent" );
    mc::transition( N[ i ] );
  }, 1, false, 3 );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  cerr.setstate( ios::badbit );
  if ( mc::prop == "P11" ) p11(); else if ( mc::prop == "P12" ) p12(); else return 2;
  return mc::finish( { { "accepted data packets", mc::S->counters[ 0 ] }, { "refused data packets", mc::S->counters[ 1 ] },
                       { "accepted acknowledgements", mc::S->counters[ 2 ] }, { "refused acknowledgements", mc::S->counters[ 3 ] } } );
}
