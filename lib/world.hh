/* The world around the project's real programs (salsify-receiver, salsify-sender), run as threads of
   the harness: their datagrams, polls, clock, camera and window. A program runs until it asks to be
   told about events (poll); then it waits until the explorer chooses one, so every interleaving of
   events is the explorer's choice. Stream sockets between the program's own threads stay real. */
#ifndef WORLD_HH
#define WORLD_HH
#include "mc.hh"
#include "alf.hh"
#include <arpa/inet.h>
#include <condition_variable>
#include <deque>
#include <dlfcn.h>
#include <linux/errqueue.h>
#include <map>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>
#include <getopt.h>
#include <functional>

namespace world {
typedef std::string Datagram;
struct Finished {};                      /* unwinds a program that is no longer needed */

static bool virtual_clock = false;
static std::atomic<int64_t> clock_us { 1600000000ll * 1000000 };

struct Actor {
  std::string name;
  std::thread thread;
  std::mutex m; std::condition_variable cv;
  bool waiting = false, go = false, ended = false, stop = false;
  std::string error;                     /* how it ended, if it did by itself */
  std::vector<pollfd> asked; int timeout = 0;
  std::vector<short> revents;
  int udp = -1;                          /* its datagram socket */
  std::deque<Datagram> inbox; int64_t stamp_us = 0;
  std::vector<Datagram> outbox; std::vector<std::string> dest; std::vector<int64_t> left_at;
  sockaddr_in6 peer {};
};
static thread_local Actor * me = nullptr;
static thread_local bool internal = false; /* a wait or wakeup of the explorer's own */
struct Internal { bool was = internal; Internal() { internal = true; } ~Internal() { internal = was; } };
static std::map<int, Actor *> by_fd; static std::mutex by_fd_m;

/* the window: what was drawn, and whether the drawing thread has nothing left to do */
static std::mutex draw_m; static std::condition_variable draw_cv;
static std::vector<uint64_t> drawn;
static std::atomic<uint64_t> wakeups { 0 };
static std::atomic<int> drawers_waiting { 0 }; static std::atomic<uint64_t> drawer_saw { 0 };

inline Actor * owner( int fd ) { std::lock_guard<std::mutex> l( by_fd_m ); auto i = by_fd.find( fd ); return i == by_fd.end() ? nullptr : i->second; }

/* starts a program and waits until it polls or ends */
inline void wait_parked( Actor & a )
{
  Internal here; std::unique_lock<std::mutex> l( a.m );
  if ( not a.cv.wait_for( l, std::chrono::seconds( 60 ), [&] { return ( a.waiting and not a.go ) or a.ended; } ) ) mc::fail( a.name + " does not come back to waiting for events" );
}
inline void start( Actor & a, const std::string & name, int ( *program )( int, char ** ), std::vector<std::string> args )
{
  a.name = name;
  inet_pton( AF_INET6, "::ffff:127.0.0.1", &a.peer.sin6_addr ); a.peer.sin6_family = AF_INET6; a.peer.sin6_port = htons( 4242 );
  a.thread = std::thread( [&a, program, args] {
    me = &a;
    std::vector<std::vector<char>> keep; for ( auto & s : args ) { keep.emplace_back( s.begin(), s.end() ); keep.back().push_back( 0 ); }
    std::vector<char *> argv; for ( auto & k : keep ) argv.push_back( k.data() ); argv.push_back( nullptr );
    std::string error;
    optind = 0;
    try { const int rc = program( args.size(), argv.data() ); error = mc::fmt( "it ended with status %d", rc ); }
    catch ( const Finished & ) {}
    catch ( const std::exception & e ) { error = std::string( "it ended with an exception: " ) + e.what(); }
    Internal here; std::lock_guard<std::mutex> l( a.m ); a.ended = true; a.error = error; a.cv.notify_all();
  } );
  wait_parked( a );
}
inline void check_running( Actor & a ) { if ( a.ended ) mc::fail( a.name + ": " + a.error ); }

/* lets the program's poll return with these events (empty: timeout) and waits until it polls again */
inline void resume( Actor & a, std::vector<short> revents )
{
  { Internal here; std::lock_guard<std::mutex> l( a.m ); a.revents = revents; a.go = true; a.cv.notify_all(); }
  wait_parked( a );
  check_running( a );
}
inline std::vector<short> events_for( Actor & a, int fd, short ev )
{
  std::vector<short> r( a.asked.size(), 0 ); bool any = false;
  for ( size_t i = 0; i < r.size(); i++ ) if ( a.asked[ i ].fd == fd and ( a.asked[ i ].events & ev ) ) { r[ i ] = ev; any = true; }
  if ( not any ) r.clear();
  return r;
}
inline bool interested( Actor & a, int fd, short ev ) { return not events_for( a, fd, ev ).empty(); }

/* delivers a datagram */
inline void deliver( Actor & a, const Datagram & d, int64_t stamp_us )
{
  auto r = events_for( a, a.udp, POLLIN );
  mc::require( not r.empty(), a.name + " does not wait for datagrams" );
  { std::lock_guard<std::mutex> l( a.m ); a.inbox.push_back( d ); a.stamp_us = stamp_us; }
  resume( a, r );
  mc::require( a.inbox.empty(), a.name + " did not read the datagram" );
}

/* waits until the drawing thread has drawn everything it was given: until it waits for more, and, in case it does so in a way that is
   not recognised, until what is expected has been drawn and nothing follows. Load only makes this slower. */
inline void settle_display( const std::function<bool()> & expected )
{
  Internal here;
  for ( int i = 0, ok_for = 0; i < 300000; i++ ) {
    const bool idle = drawers_waiting.load() and drawer_saw.load() == wakeups.load();
    bool ok; { std::lock_guard<std::mutex> l( draw_m ); ok = expected(); }
    if ( idle or ( ok and ++ok_for > 200 ) ) return;
    usleep( 100 );
  }
}

/* the project's little-endian wire format */
inline void le( std::string & s, uint64_t v, int n ) { while ( n-- ) { s += char( v & 255 ); v >>= 8; } }
inline uint64_t rd( const std::string & s, size_t p, int n ) { uint64_t v = 0; for ( int i = n - 1; i >= 0; i-- ) v = v << 8 | uint8_t( s.at( p + i ) ); return v; }
struct PacketW { uint16_t conn = 1337; uint32_t source = 0, target = 0, frame = 0; uint16_t frag = 0, frags = 1; uint32_t since = 0; std::string payload;
  Datagram write() const { Datagram s; le( s, conn, 2 ); le( s, source, 4 ); le( s, target, 4 ); le( s, frame, 4 ); le( s, frag, 2 ); le( s, frags, 2 ); le( s, since, 4 ); return s + payload; }
  static PacketW read( const Datagram & s ) { PacketW p; p.conn = rd( s, 0, 2 ); p.source = rd( s, 2, 4 ); p.target = rd( s, 6, 4 ); p.frame = rd( s, 10, 4 ); p.frag = rd( s, 14, 2 ); p.frags = rd( s, 16, 2 ); p.since = rd( s, 18, 4 ); p.payload = s.substr( 22 ); return p; } };
struct AckW { uint16_t conn = 0; uint32_t frame = 0; uint16_t frag = 0; uint32_t delay = 0, state = 0; std::vector<uint32_t> states;
  Datagram write() const { Datagram s; le( s, conn, 2 ); le( s, frame, 4 ); le( s, frag, 2 ); le( s, delay, 4 ); le( s, state, 4 ); le( s, states.size(), 4 ); for ( auto x : states ) le( s, x, 4 ); return s; }
  static AckW read( const Datagram & s ) { AckW a; a.conn = rd( s, 0, 2 ); a.frame = rd( s, 2, 4 ); a.frag = rd( s, 6, 2 ); a.delay = rd( s, 8, 4 ); a.state = rd( s, 12, 4 ); const size_t n = rd( s, 16, 4 ); for ( size_t i = 0; i < n; i++ ) a.states.push_back( rd( s, 20 + 4 * i, 4 ) ); return a; } };
}

void world_draw( const BaseRaster & r )
{
  world::Internal here; std::lock_guard<std::mutex> l( world::draw_m );
  world::drawn.push_back( raster_digest( r ) ); world::draw_cv.notify_all();
}

extern "C" {
int clock_gettime( clockid_t id, struct timespec * t ) noexcept
{
  if ( world::virtual_clock and id == CLOCK_REALTIME ) { const int64_t n = world::clock_us.load(); t->tv_sec = n / 1000000; t->tv_nsec = n % 1000000 * 1000; return 0; }
  return syscall( SYS_clock_gettime, id, t );
}
int poll( struct pollfd * f, nfds_t n, int timeout )
{
  using namespace world;
  if ( not me ) return syscall( SYS_poll, f, n, timeout );
  Internal here;
  std::unique_lock<std::mutex> l( me->m );
  me->asked.assign( f, f + n ); me->timeout = timeout; me->waiting = true; me->cv.notify_all();
  me->cv.wait( l, [] { return me->go or me->stop; } );
  if ( me->stop ) throw Finished();
  me->go = false; me->waiting = false;
  int k = 0;
  for ( nfds_t i = 0; i < n; i++ ) { f[ i ].revents = i < me->revents.size() ? me->revents[ i ] : 0; k += f[ i ].revents != 0; }
  return k;
}
static bool inet( const struct sockaddr * a ) { return a and ( a->sa_family == AF_INET or a->sa_family == AF_INET6 ); }
int bind( int fd, const struct sockaddr * a, socklen_t n ) noexcept
{
  if ( world::me and inet( a ) ) { std::lock_guard<std::mutex> l( world::by_fd_m ); world::by_fd[ fd ] = world::me; world::me->udp = fd; return 0; }
  return syscall( SYS_bind, fd, a, n );
}
int connect( int fd, const struct sockaddr * a, socklen_t n )
{
  if ( world::me and inet( a ) ) { std::lock_guard<std::mutex> l( world::by_fd_m ); world::by_fd[ fd ] = world::me; world::me->udp = fd; return 0; }
  return syscall( SYS_connect, fd, a, n );
}
ssize_t recvmsg( int fd, struct msghdr * h, int flags )
{
  world::Actor * a = world::owner( fd );
  if ( not a ) return syscall( SYS_recvmsg, fd, h, flags );
  std::lock_guard<std::mutex> l( a->m );
  if ( a->inbox.empty() ) { errno = EAGAIN; return -1; }
  const world::Datagram d = a->inbox.front(); a->inbox.pop_front();
  size_t at = 0;
  for ( size_t i = 0; i < h->msg_iovlen and at < d.size(); i++ ) { const size_t k = std::min( d.size() - at, h->msg_iov[ i ].iov_len ); memcpy( h->msg_iov[ i ].iov_base, d.data() + at, k ); at += k; }
  if ( h->msg_name and h->msg_namelen >= sizeof a->peer ) { memcpy( h->msg_name, &a->peer, sizeof a->peer ); h->msg_namelen = sizeof a->peer; }
  h->msg_flags = at < d.size() ? MSG_TRUNC : 0;
  if ( h->msg_control and h->msg_controllen >= CMSG_SPACE( sizeof( timespec ) ) ) {
    timespec ts; ts.tv_sec = a->stamp_us / 1000000; ts.tv_nsec = a->stamp_us % 1000000 * 1000;
    h->msg_controllen = CMSG_SPACE( sizeof ts );
    cmsghdr * c = CMSG_FIRSTHDR( h ); c->cmsg_level = SOL_SOCKET; c->cmsg_type = SO_TIMESTAMPNS; c->cmsg_len = CMSG_LEN( sizeof ts );
    memcpy( CMSG_DATA( c ), &ts, sizeof ts );
  }
  return at;
}
static int64_t clock_us_now() { return world::clock_us.load(); }
static ssize_t world_send( world::Actor * a, const void * p, size_t n, const struct sockaddr * to, socklen_t tn )
{
  std::lock_guard<std::mutex> l( a->m );
  a->outbox.emplace_back( static_cast<const char *>( p ), n ); a->left_at.push_back( clock_us_now() );
  a->dest.emplace_back( to ? std::string( reinterpret_cast<const char *>( to ), tn ) : std::string() );
  return n;
}
ssize_t sendto( int fd, const void * p, size_t n, int flags, const struct sockaddr * to, socklen_t tn )
{
  if ( world::Actor * a = world::owner( fd ) ) return world_send( a, p, n, to, tn );
  return syscall( SYS_sendto, fd, p, n, flags, to, tn );
}
ssize_t send( int fd, const void * p, size_t n, int flags )
{
  if ( world::Actor * a = world::owner( fd ) ) return world_send( a, p, n, nullptr, 0 );
  return syscall( SYS_sendto, fd, p, n, flags, nullptr, 0 );
}
/* the drawing thread waits for pictures on a condition variable */
#ifdef WORLD_WATCH_DISPLAY
typedef int ( *cond_fn )( pthread_cond_t * ); typedef int ( *wait_fn )( pthread_cond_t *, pthread_mutex_t * );
static cond_fn real_broadcast, real_signal; static wait_fn real_wait;
static void find_cond()
{
  if ( real_wait ) return;
  real_broadcast = (cond_fn) dlvsym( RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2" );
  real_signal = (cond_fn) dlvsym( RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2" );
  real_wait = (wait_fn) dlvsym( RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2" );
}
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
  find_cond();
  if ( world::internal ) return real_wait( c, m );
  world::drawer_saw = world::wakeups.load(); world::drawers_waiting++;
  const int r = real_wait( c, m );
  world::drawers_waiting--;
  return r;
}
int pthread_cond_broadcast( pthread_cond_t * c ) noexcept { find_cond(); if ( not world::internal ) world::wakeups++; return real_broadcast( c ); }
int pthread_cond_signal( pthread_cond_t * c ) noexcept { find_cond(); if ( not world::internal ) world::wakeups++; return real_signal( c ); }
#endif
}
#endif
