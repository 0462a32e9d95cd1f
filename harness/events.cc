/* P20: the pacer under a virtual clock and the event loop over real descriptors, for all operation sequences. */
#include "mc.hh"
#include <deque>
#include <iostream>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <memory>
#include "pacer.hh"
#include "poller.hh"
using namespace std;
using mc::fmt;

static bool virtual_clock = false; static int64_t clock_us = 0;
extern "C" int clock_gettime( clockid_t id, struct timespec * t ) noexcept
{
  if ( virtual_clock and ( id == CLOCK_REALTIME or id == CLOCK_MONOTONIC ) ) { t->tv_sec = clock_us / 1000000; t->tv_nsec = clock_us % 1000000 * 1000; return 0; }
  return syscall( SYS_clock_gettime, id, t );
}
static int last_timeout = -99; static int poll_calls = 0;
extern "C" int poll( struct pollfd * f, nfds_t n, int timeout )
{ last_timeout = timeout; poll_calls++; return syscall( SYS_poll, f, n, 0 ); }

/* ---- pacer ---- */
static const int DELAY[] = { 0, 1, 500, 1000, 2500, 700000 };
static const int STEP[] = { 1, 499, 500, 1000, 1999, 2000000 };
static void pacer_sequence( uint64_t idx, int depth )
{
  mc::Digits d( idx ); struct P { int64_t when; string what; }; deque<P> m; int64_t now = 1600000000ll * 1000000 + 123;
  clock_us = now; virtual_clock = true; struct Off { ~Off() { virtual_clock = false; } } off;
  Pacer p; string what; int n = 0; uint64_t h = 1; int64_t released = 0;
  for ( int s = 0; s < depth; s++ ) {
    const int o = d( 14 );
    if ( o < 6 ) {
      const string payload = fmt( "packet %d", n++ ) + string( n % 3, '\0' );
      m.push_back( { m.empty() ? now : m.back().when + DELAY[ o ], payload } ); p.push( payload, DELAY[ o ] ); what += fmt( " push(%d us)", DELAY[ o ] );
    } else if ( o < 12 ) { now += STEP[ o - 6 ]; clock_us = now; what += fmt( " +%d us", STEP[ o - 6 ] ); }
    else if ( o == 12 or ( o == 13 and s == depth - 1 ) ) { /* what the sender does when it may send: one packet, or all that are due */
      what += " send";
      do {
        if ( p.ms_until_due() != 0 or p.empty() ) break;
        mc::require( not m.empty(), "a packet is released that was not queued:" + what );
        mc::require( m.front().when - now < 1000, "a packet is released a millisecond or more before it is due:" + what );
        mc::require( p.front() == m.front().what, "packets are released out of order or changed:" + what );
        p.pop(); m.pop_front(); released++;
      } while ( o == 13 );
      mc::require( m.empty() or o == 12 or m.front().when > now, "a packet that is due is not released:" + what );
    } else { /* wait as long as it says, then send */
      if ( m.empty() ) { what += " idle"; } else {
        const int w = p.ms_until_due(); const int64_t due = m.front().when; now = max( now, now + int64_t( w ) * 1000 ); clock_us = now; what += fmt( " wait %d ms", w );
        int rounds = 0; while ( p.ms_until_due() > 0 and rounds < 10 ) { now += p.ms_until_due() * 1000; clock_us = now; rounds++; }
        mc::require( rounds < 3 and now <= max( due, now - int64_t( w ) * 1000 ) + 1000, "a packet is not released within a millisecond of being due:" + what );
      }
    }
    mc::describe( "pacer:" + what );
    mc::require( p.size() == m.size() and p.empty() == m.empty(), "number of queued packets:" + what );
    const int ms = p.ms_until_due();
    if ( m.empty() ) mc::require( ms > 0 and ms <= 1000, "waiting time with nothing queued:" + what );
    else {
      mc::require( p.front() == m.front().what, "first packet:" + what );
      const int64_t rem = m.front().when - now;
      if ( rem <= 0 ) mc::require( ms == 0, "a packet is due but ms_until_due() is not 0:" + what );
      else mc::require( ms >= 0 and ms * 1000ll > rem - 1000 and ms * 1000ll < rem + 1000, fmt( "ms_until_due() is %d with %ld us to go:", ms, rem ) + what );
    }
    h = mc::mix( h, ( m.size() << 32 ) + ( m.empty() ? 0 : m.front().when - now ) ); mc::state( h ); mc::transition();
  }
  /* drain: everything queued comes out, in order, never early, and the wait is bounded by the schedule */
  while ( not m.empty() ) {
    int rounds = 0;
    while ( p.ms_until_due() > 0 ) { now += p.ms_until_due() * 1000ll; clock_us = now; mc::require( ++rounds < 5, "the wait never ends:" + what ); }
    mc::require( m.front().when - now < 1000 and p.front() == m.front().what, "draining:" + what ); p.pop(); m.pop_front(); released++;
  }
  mc::require( p.empty() and released == n, "packets lost or repeated:" + what );
  if ( idx % 1000003 == 77 ) mc::sample( "pacer:" + what );
}

/* long queues: as many packets as large frames have, long delays, payloads of any size; every size, delay and pattern */
static const int LONG_DELAY[] = { 0, 1, 500, 2000, 999999, 60000000, 2147483647 };
static int long_count( uint64_t i ) { static const int more[] = { 1000, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000 }; return i < 600 ? i + 1 : more[ i - 600 ]; }
static const uint64_t LONG_COUNTS = 613;
static void pacer_long( uint64_t idx )
{
  mc::Digits d( idx ); const int count = long_count( d( LONG_COUNTS ) ), delay = LONG_DELAY[ d( 7 ) ], pattern = d( 3 );
  const string what = fmt( "pacer, %d packets, %d us apart, pattern %d", count, delay, pattern ); mc::describe( what );
  struct P { int64_t when; int n; }; deque<P> m; int64_t now = 1600000000ll * 1000000 + 123; clock_us = now; virtual_clock = true; struct Off { ~Off() { virtual_clock = false; } } off;
  auto payload = []( int n ) { string s( n % 7 ? n % 50 : n % 1501, char( n ) ); return s + fmt( "%d", n ).substr( n % 11 ? 0 : 1 ); };
  Pacer p; int pushed = 0;
  auto push = [&] { m.push_back( { m.empty() ? now : m.back().when + delay, pushed } ); p.push( payload( pushed++ ), delay ); };
  auto check = [&] {
    mc::require( p.size() == m.size() and p.empty() == m.empty(), what + ": number of queued packets" ); const int ms = p.ms_until_due(); mc::transition();
    if ( m.empty() ) { mc::require( ms > 0 and ms <= 1000, what + ": waiting time with nothing queued" ); return; }
    const int64_t rem = m.front().when - now;
    mc::require( rem <= 0 ? ms == 0 : ms >= 0 and ms * 1000ll > rem - 1000 and ms * 1000ll < rem + 1000, what + fmt( ": ms_until_due() is %d with %ld us to go, %zu queued", ms, rem, m.size() ) );
  };
  auto take = [&] { if ( m.front().when > now ) { now = m.front().when; clock_us = now; } check();
                    mc::require( p.front() == payload( m.front().n ), what + fmt( ": packet %d is lost, changed or out of order", m.front().n ) ); p.pop(); m.pop_front(); };
  if ( pattern == 0 ) { while ( pushed < count ) { push(); check(); } }
  else if ( pattern == 1 ) { while ( pushed < count ) { push(); check(); if ( pushed % 3 == 0 ) { take(); check(); } } } /* the queue grows although packets leave */
  else { while ( pushed < count ) { push(); check(); if ( pushed > count / 2 ) { take(); check(); push(); } } }           /* a standing queue */
  while ( not m.empty() ) { take(); check(); }
  mc::state( mc::mix( mc::mix( count, delay ), pattern ) );
}

/* ---- event loop ---- */
struct Line { int kind, peer; unique_ptr<FileDescriptor> fd; bool in; /* model: */ int data = 0; bool hup = false, fin = false, eof = false, full = false, active = true, interested = true; int mode = 0; };
static const char * KIND[] = { "pipe, reading", "stream socket, reading", "datagram socket, reading", "stream socket, writing", "pipe, writing" };
static const int KINDS = 5;
static void open_line( Line & l, int kind )
{
  int p[ 2 ]; l.kind = kind; l.in = kind < 3;
  if ( kind == 0 ) { if ( pipe( p ) ) _exit( 2 ); l.fd.reset( new FileDescriptor( p[ 0 ] ) ); l.peer = p[ 1 ]; }
  else if ( kind == 4 ) { if ( pipe( p ) ) _exit( 2 ); l.fd.reset( new FileDescriptor( p[ 1 ] ) ); l.peer = p[ 0 ]; fcntl( p[ 1 ], F_SETPIPE_SZ, 4096 ); }
  else { if ( socketpair( AF_UNIX, kind == 2 ? SOCK_DGRAM : SOCK_STREAM, 0, p ) ) _exit( 2 ); l.fd.reset( new FileDescriptor( p[ 0 ] ) ); l.peer = p[ 1 ]; }
}
static void poller_sequence( uint64_t idx, int depth, int k0, int k1 )
{
  Line l[ 2 ]; open_line( l[ 0 ], k0 ); open_line( l[ 1 ], k1 );
  struct Shut { Line * l; ~Shut() { for ( int i = 0; i < 2; i++ ) if ( l[ i ].peer >= 0 ) close( l[ i ].peer ); } } shut { l };
  vector<int> ran; Poller poller;
  for ( int i = 0; i < 2; i++ ) {
    Line * x = &l[ i ];
    poller.add_action( Poller::Action( *x->fd, x->in ? Poller::Action::In : Poller::Action::Out, [x, i, &ran]() -> Poller::Action::Result {
      ran.push_back( i );
      if ( x->mode != 3 ) { if ( x->in ) x->fd->read( 1 ); else { fcntl( x->fd->fd_num(), F_SETFL, O_NONBLOCK ); x->fd->write( string( "w" ) ); fcntl( x->fd->fd_num(), F_SETFL, 0 ); } }
      switch ( x->mode ) { case 1: return Poller::Action::Result::Type::Cancel; case 2: return { Poller::Action::Result::Type::Exit, 7u + i }; default: return Poller::Action::Result::Type::Continue; }
    }, [x] { return x->interested; } ) );
  }
  mc::Digits d( idx ); string what = string( KIND[ k0 ] ) + " and " + KIND[ k1 ] + ":"; uint64_t h = k0 * 10 + k1;
  for ( int s = 0; s < depth; s++ ) {
    const int o = s == depth - 1 ? 12 : d( 13 ); const int i = o & 1; Line & x = l[ i ]; const int act = o / 2;
    switch ( act ) {
      case 0: what += fmt( " ready%d", i ); /* data for a reader; room for a writer */
        if ( x.in ) { if ( x.peer < 0 or x.fin ) return; if ( syscall( SYS_write, x.peer, "d", 1 ) != 1 ) _exit( 2 ); x.data++; }
        else { if ( not x.full or x.peer < 0 ) return; char b[ 65536 ]; fcntl( x.peer, F_SETFL, O_NONBLOCK ); while ( syscall( SYS_read, x.peer, b, sizeof b ) > 0 ) {} x.full = false; }
        break;
      case 1: what += fmt( " close%d", i ); if ( x.peer < 0 ) return; close( x.peer ); x.peer = -1; x.hup = true; break;
      case 2: what += fmt( " interest%d", i ); x.interested = not x.interested; break;
      case 3: what += fmt( " mode%d+1", i ); x.mode = ( x.mode + 1 ) % 4; break;
      case 4: what += fmt( " mode%d+2", i ); x.mode = ( x.mode + 2 ) % 4; break;
      case 5: /* no more data from the peer; or the channel is filled up */
        if ( x.in ) { what += fmt( " fin%d", i ); if ( x.kind != 1 or x.peer < 0 or x.fin ) return; shutdown( x.peer, SHUT_WR ); x.fin = true; }
        else { what += fmt( " fill%d", i ); if ( x.peer < 0 or x.full ) return; char b[ 65536 ]; memset( b, 0, sizeof b ); const int f = x.fd->fd_num(); fcntl( f, F_SETFL, O_NONBLOCK ); signal( SIGPIPE, SIG_IGN ); size_t sz = sizeof b; while ( sz ) { if ( syscall( SYS_write, f, b, sz ) < 0 ) sz /= 2; } fcntl( f, F_SETFL, 0 ); x.full = true; }
        break;
      case 6: {
        what += " poll"; mc::describe( what );
        /* what the descriptors will report */
        struct pollfd q[ 2 ]; for ( int k = 0; k < 2; k++ ) {
          Line & y = l[ k ]; const bool in_eof = y.in and y.eof;
          q[ k ].fd = y.fd->fd_num(); q[ k ].events = y.active and y.interested and not in_eof ? ( y.in ? POLLIN : POLLOUT ) : 0; q[ k ].revents = 0;
        }
        bool expect_exit = not q[ 0 ].events and not q[ 1 ].events, expect_throw = false, timeout = false; unsigned status = 0; vector<int> expect;
        if ( not expect_exit ) {
          const int n = syscall( SYS_poll, q, 2, 0 ); timeout = n == 0;
          /* the kernel's report, against the model of the channel */
          for ( int k = 0; k < 2; k++ ) if ( q[ k ].events == POLLIN and not l[ k ].hup ) mc::require( bool( q[ k ].revents & POLLIN ) == ( l[ k ].data > 0 or l[ k ].fin ), "harness: channel model" );
          for ( int k = 0; k < 2 and not expect_exit and not expect_throw; k++ ) {
            if ( q[ k ].revents & ( POLLERR | POLLHUP | POLLNVAL ) ) { expect_exit = true; status = EXIT_FAILURE; break; }
            if ( q[ k ].revents & q[ k ].events ) { expect.push_back( k ); if ( l[ k ].mode == 2 ) { expect_exit = true; status = 7 + k; } else if ( l[ k ].mode == 3 ) expect_throw = true; }
          }
        }
        ran.clear(); bool threw = false; last_timeout = -99; poll_calls = 0; unique_ptr<Poller::Result> r;
        const bool any_events = q[ 0 ].events or q[ 1 ].events; const int want_timeout = 100 + s;
        try { r.reset( new Poller::Result( poller.poll( want_timeout ) ) ); } catch ( const std::exception & ) { threw = true; }
        mc::require( not any_events or ( poll_calls == 1 and last_timeout == want_timeout ), "the event loop does not wait as long as it was asked to:" + what );
        mc::require( ran == expect, fmt( "%zu callbacks ran where %zu should have:", ran.size(), expect.size() ) + what );
        mc::require( threw == expect_throw, expect_throw ? "a callback that does nothing is not reported:" + what : "unexpected exception:" + what );
        if ( not threw ) {
          mc::require( ( r->result == Poller::Result::Type::Exit ) == expect_exit, "the event loop's result (exit):" + what );
          mc::require( ( r->result == Poller::Result::Type::Timeout ) == ( timeout and not expect_exit ), "the event loop's result (timeout):" + what );
          if ( expect_exit ) mc::require( r->exit_status == status, fmt( "exit status %u instead of %u:", r->exit_status, status ) + what );
        }
        for ( int k : ran ) { Line & y = l[ k ]; if ( y.mode == 1 ) y.active = false; if ( y.mode != 3 and y.in ) { if ( y.data ) y.data--; else y.eof = true; } }
        mc::transition();
        if ( threw ) return;
      }
    }
    h = mc::mix( h, o + 1 ); mc::state( h );
  }
  if ( idx % 50021 == 17 ) mc::sample( what );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv ); signal( SIGPIPE, SIG_IGN );
  const int pd = mc::thorough() ? 7 : 6; uint64_t n = 1; for ( int i = 0; i < pd; i++ ) n *= 14;
  mc::run( "pacer, long queues", LONG_COUNTS * 7 * 3, pacer_long, 64 );
  mc::run( fmt( "pacer, depth %d", pd ), n, [=]( uint64_t i ) { pacer_sequence( i, pd ); }, 1024 );
  const int ed = mc::thorough() ? 7 : 6; n = 1; for ( int i = 0; i < ed - 1; i++ ) n *= 13; /* the last operation is a poll */
  for ( int a = 0; a < KINDS; a++ ) for ( int b = 0; b < KINDS; b++ ) {
    if ( not mc::thorough() and a > b and ( a + b ) % 2 ) continue;
    mc::run( fmt( "event loop, %s and %s, depth %d", KIND[ a ], KIND[ b ], ed ), n, [=]( uint64_t i ) { poller_sequence( i, ed, a, b ); }, 256 );
  }
  return mc::finish();
}
