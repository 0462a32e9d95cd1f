/* P25: addresses and datagram sockets. The real code runs on a kernel of our own (socket calls answered by the harness),
   so every queue, control message, short count and error is the explorer's choice; where the machine has a loopback
   interface, the same histories are repeated on the real kernel, which validates the model of it. */
#include "mc.hh"
#include <arpa/inet.h>
#include <deque>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <unistd.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include "address.hh"
#include "socket.hh"
#include "socketpair.hh"
using namespace std;
using mc::fmt;

/* ---- the kernel ---- */
static bool modelled = true;
struct Datagram { string data; sockaddr_in6 from; timespec ts; };
struct Option { int level, name; string value; };
struct Sock { sockaddr_in6 local {}, peer {}; bool bound = false, connected = false, stamps = false; deque<Datagram> in; vector<Option> options; };
static map<int, Sock> socks; static uint16_t ephemeral; static timespec kernel_clock; static vector<pair<int, int>> made;
/* what the next call does instead */
static int fail_with, shorten, flags_out; static function<void( msghdr * )> control; static int opt_value, opt_len;
static void boot() { socks.clear(); made.clear(); ephemeral = 40000; kernel_clock = { 1600000000, 123456789 }; fail_with = shorten = flags_out = 0; control = nullptr; opt_value = opt_len = -1; }
static sockaddr_in6 any6() { sockaddr_in6 a; memset( &a, 0, sizeof a ); a.sin6_family = AF_INET6; return a; }
static sockaddr_in6 where( const string & ip, uint16_t port ) { sockaddr_in6 a = any6(); const string t = ip.find( ':' ) == string::npos ? "::ffff:" + ip : ip; if ( inet_pton( AF_INET6, t.c_str(), &a.sin6_addr ) != 1 ) _exit( 2 ); a.sin6_port = htons( port ); return a; }
static bool same( const sockaddr_in6 & a, const sockaddr_in6 & b ) { return a.sin6_port == b.sin6_port and memcmp( &a.sin6_addr, &b.sin6_addr, 16 ) == 0; }
static bool failing() { if ( fail_with ) { errno = fail_with; fail_with = 0; return true; } return false; }
static Sock * sock( int fd ) { auto i = socks.find( fd ); return i == socks.end() ? nullptr : &i->second; }
static ssize_t deliver( Sock & s, const void * p, size_t n, sockaddr_in6 to )
{
  if ( failing() ) return -1;
  if ( n > 65507 ) { errno = EMSGSIZE; return -1; }
  if ( not s.bound ) { s.local = where( "127.0.0.1", ephemeral++ ); s.bound = true; }
  kernel_clock.tv_nsec += 1000001; if ( kernel_clock.tv_nsec >= 1000000000 ) { kernel_clock.tv_nsec -= 1000000000; kernel_clock.tv_sec++; }
  const size_t k = shorten ? n - min( n, size_t( shorten ) ) : n; shorten = 0;
  for ( auto & x : socks ) if ( x.second.bound and same( x.second.local, to ) and ( not x.second.connected or same( x.second.peer, s.local ) ) )
    x.second.in.push_back( { string( static_cast<const char *>( p ), k ), s.local, kernel_clock } );
  return k;
}
extern "C" {
int socket( int d, int t, int p ) noexcept
{
  if ( not modelled ) return syscall( SYS_socket, d, t, p );
  if ( failing() ) return -1;
  const int fd = eventfd( 0, 0 ); made.emplace_back( d, t ); if ( fd >= 0 ) socks[ fd ] = Sock(); return fd;
}
int bind( int fd, const struct sockaddr * a, socklen_t n ) noexcept
{
  Sock * s = sock( fd ); if ( not s ) return syscall( SYS_bind, fd, a, n ); if ( failing() ) return -1;
  if ( n != sizeof( sockaddr_in6 ) or a->sa_family != AF_INET6 ) { errno = EINVAL; return -1; }
  memcpy( &s->local, a, n ); if ( s->local.sin6_port == 0 ) s->local.sin6_port = htons( ephemeral++ ); s->bound = true; return 0;
}
int connect( int fd, const struct sockaddr * a, socklen_t n )
{
  Sock * s = sock( fd ); if ( not s ) return syscall( SYS_connect, fd, a, n ); if ( failing() ) return -1;
  if ( n != sizeof( sockaddr_in6 ) or a->sa_family != AF_INET6 ) { errno = EINVAL; return -1; }
  memcpy( &s->peer, a, n ); s->connected = true; if ( not s->bound ) { s->local = where( "127.0.0.1", ephemeral++ ); s->bound = true; } return 0;
}
static int name( int fd, struct sockaddr * a, socklen_t * n, bool peer )
{
  Sock * s = sock( fd ); if ( not s ) return syscall( peer ? SYS_getpeername : SYS_getsockname, fd, a, n ); if ( failing() ) return -1;
  if ( peer and not s->connected ) { errno = ENOTCONN; return -1; }
  sockaddr_in6 x = peer ? s->peer : s->bound ? s->local : any6(); memcpy( a, &x, min<size_t>( *n, sizeof x ) ); *n = sizeof x; return 0;
}
int getsockname( int fd, struct sockaddr * a, socklen_t * n ) noexcept { return name( fd, a, n, false ); }
int getpeername( int fd, struct sockaddr * a, socklen_t * n ) noexcept { return name( fd, a, n, true ); }
int setsockopt( int fd, int level, int opt, const void * v, socklen_t n ) noexcept
{
  Sock * s = sock( fd ); if ( not s ) return syscall( SYS_setsockopt, fd, level, opt, v, n ); if ( failing() ) return -1;
  s->options.push_back( { level, opt, string( static_cast<const char *>( v ), n ) } );
  if ( level == SOL_SOCKET and opt == SO_TIMESTAMPNS ) { int on = 0; memcpy( &on, v, min<size_t>( n, 4 ) ); s->stamps = on; }
  return 0;
}
int getsockopt( int fd, int level, int opt, void * v, socklen_t * n ) noexcept
{
  if ( opt_len < 0 ) return syscall( SYS_getsockopt, fd, level, opt, v, n );
  if ( failing() ) return -1;
  int real = 0; socklen_t l = 4; syscall( SYS_getsockopt, fd, level, opt, &real, &l ); if ( opt == opt_value ) real += 100;
  memcpy( v, &real, min<size_t>( *n, 4 ) ); *n = opt == opt_value ? 4 : opt_len; return 0;
}
ssize_t sendto( int fd, const void * p, size_t n, int flags, const struct sockaddr * a, socklen_t al )
{
  Sock * s = sock( fd ); if ( not s ) return syscall( SYS_sendto, fd, p, n, flags, a, al );
  sockaddr_in6 to = s->peer;
  if ( a ) { if ( al != sizeof to or a->sa_family != AF_INET6 ) { errno = EINVAL; return -1; } memcpy( &to, a, al ); } else if ( not s->connected ) { errno = EDESTADDRREQ; return -1; }
  return deliver( *s, p, n, to );
}
ssize_t send( int fd, const void * p, size_t n, int flags ) { return sendto( fd, p, n, flags, nullptr, 0 ); }
ssize_t recvmsg( int fd, struct msghdr * h, int flags )
{
  Sock * s = sock( fd ); if ( not s ) return syscall( SYS_recvmsg, fd, h, flags | MSG_DONTWAIT );
  if ( failing() ) return -1;
  if ( s->in.empty() ) { errno = EAGAIN; return -1; }
  const Datagram d = s->in.front(); s->in.pop_front();
  size_t at = 0; for ( size_t i = 0; i < h->msg_iovlen and at < d.data.size(); i++ ) { const size_t k = min( d.data.size() - at, h->msg_iov[ i ].iov_len ); memcpy( h->msg_iov[ i ].iov_base, d.data.data() + at, k ); at += k; }
  if ( h->msg_name ) { memcpy( h->msg_name, &d.from, min<size_t>( h->msg_namelen, sizeof d.from ) ); h->msg_namelen = sizeof d.from; }
  h->msg_flags = flags_out | ( at < d.data.size() ? MSG_TRUNC : 0 ); flags_out = 0;
  if ( control ) { control( h ); control = nullptr; }
  else if ( s->stamps and h->msg_control and h->msg_controllen >= CMSG_SPACE( sizeof( timespec ) ) ) {
    h->msg_controllen = CMSG_SPACE( sizeof d.ts ); cmsghdr * c = CMSG_FIRSTHDR( h ); c->cmsg_level = SOL_SOCKET; c->cmsg_type = SO_TIMESTAMPNS; c->cmsg_len = CMSG_LEN( sizeof d.ts ); memcpy( CMSG_DATA( c ), &d.ts, sizeof d.ts );
  } else h->msg_controllen = 0;
  return at;
}
}

template<class F> static bool throws( const F & f ) { try { f(); return false; } catch ( const mc::Violation & ) { throw; } catch ( const exception & ) { return true; } }

/* ---- addresses ---- */
static void check_address( const sockaddr_in6 & x, const string & text, const string & canonical, uint16_t port )
{
  const Address a( text, port );
  mc::require( a.size() == sizeof x and memcmp( &a.to_sockaddr(), &x, sizeof x ) == 0, text + ": the socket address made from it is another" );
  const auto p = a.ip_port(); mc::require( p.first == canonical and p.second == port, text + fmt( " port %u: becomes %s port %u", port, p.first.c_str(), p.second ) );
  mc::require( a.ip() == canonical and a.port() == port and a.to_string() == canonical + ":" + to_string( port ), text + ": as a string it is " + a.to_string() );
  Address::raw raw; memset( &raw, 0x77, sizeof raw ); memcpy( &raw, &x, sizeof x );
  const Address b( raw, sizeof x ), c( raw.as_sockaddr, sizeof x ), again( p.first, p.second );
  mc::require( a == b and b == a and a == c and again == a, text + ": not equal to itself" );
  mc::transition( 4 ); mc::state( mc::hash_bytes( &a.to_sockaddr(), a.size() ) );
}
static string shown( const sockaddr_in6 & x )
{
  char t[ 64 ]; const uint8_t * b = x.sin6_addr.s6_addr;
  if ( IN6_IS_ADDR_V4MAPPED( &x.sin6_addr ) ) return fmt( "%u.%u.%u.%u", b[ 12 ], b[ 13 ], b[ 14 ], b[ 15 ] );
  inet_ntop( AF_INET6, &x.sin6_addr, t, sizeof t ); return t;
}
static void addresses()
{
  mc::run( "every port", 65536 * 3, [&]( uint64_t i ) {
    static const char * const ips[] = { "127.0.0.1", "::1", "2001:db8::12" }; mc::Digits d( i ); const string ip = ips[ d( 3 ) ]; const uint16_t port = d( 65536 );
    mc::describe( ip + fmt( " port %u", port ) ); check_address( where( ip, port ), ip, ip, port );
    if ( i % 40009 == 0 ) mc::sample( ip + fmt( " port %u and back", port ) );
  }, 256 );
  static const uint8_t octets[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 224, 255 }; const unsigned no = sizeof octets;
  mc::run( "IPv4 addresses", uint64_t( no ) * no * no * no * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const bool mapped = d( 2 ); unsigned o[ 4 ]; for ( auto & x : o ) x = octets[ d( no ) ];
    const string ip = fmt( "%u.%u.%u.%u", o[ 0 ], o[ 1 ], o[ 2 ], o[ 3 ] ); mc::describe( ip );
    check_address( where( ip, 4242 ), mapped ? "::ffff:" + ip : ip, ip, 4242 );
  }, 256 );
  static const uint16_t groups[] = { 0, 1, 0xffff, 0xfe80, 0x00ab }; const unsigned ng = mc::thorough() ? 5 : 4; uint64_t n6 = 1; for ( int k = 0; k < 8; k++ ) n6 *= ng;
  mc::run( "IPv6 addresses", n6, [=]( uint64_t i ) {
    mc::Digits d( i ); sockaddr_in6 x = any6(); x.sin6_port = htons( 50000 ); string full; for ( int k = 0; k < 8; k++ ) { const uint16_t g = groups[ d( ng ) ]; x.sin6_addr.s6_addr[ 2 * k ] = g >> 8; x.sin6_addr.s6_addr[ 2 * k + 1 ] = g; full += fmt( k ? ":%x" : "%x", g ); }
    mc::describe( full ); 
    if ( ( ( x.sin6_addr.s6_addr[ 0 ] == 0xfe and ( x.sin6_addr.s6_addr[ 1 ] & 0xc0 ) == 0x80 ) ) or x.sin6_addr.s6_addr[ 0 ] == 0xff ) { /* such an address has a scope */ Address::raw r; memset( &r, 0, sizeof r ); memcpy( &r, &x, sizeof x ); mc::require( Address( r, sizeof x ).port() == 50000, full + ": another port" ); return; }
    check_address( x, full, shown( x ), 50000 );
    if ( i % 20011 == 0 ) mc::sample( full + " is " + shown( x ) );
  }, 256 );
  /* equality is identity of family, address and port */
  static vector<sockaddr_in6> all; static vector<size_t> lens;
  for ( auto ip : { "0.0.0.0", "127.0.0.1", "127.0.0.2", "255.255.255.255", "::", "::1", "::2", "1::", "2001:db8::1", "2001:db8::1:0", "::ffff:0:0:1" } ) for ( uint16_t p : { 0, 1, 256, 4242, 65535 } ) { all.push_back( where( ip, p ) ); lens.push_back( sizeof( sockaddr_in6 ) ); }
  for ( int k = 0; k < 2; k++ ) { sockaddr_in6 s = where( "2001:db8::1", 1 ); ( k ? s.sin6_scope_id : s.sin6_flowinfo ) = 5; all.push_back( s ); lens.push_back( sizeof s ); }
  { sockaddr_in6 s; memset( &s, 0, sizeof s ); for ( uint16_t p : { 0, 1, 4242 } ) for ( uint32_t a : { 0u, 0x7f000001u } ) { sockaddr_in v; memset( &v, 0, sizeof v ); v.sin_family = AF_INET; v.sin_port = htons( p ); v.sin_addr.s_addr = htonl( a ); memcpy( &s, &v, sizeof v ); all.push_back( s ); lens.push_back( sizeof v ); } }
  all.push_back( any6() ); lens.push_back( 0 ); /* no address at all */
  mc::run( "equality", all.size() * all.size(), [&]( uint64_t i ) {
    const size_t a = i % all.size(), b = i / all.size(); mc::describe( fmt( "addresses %zu and %zu", a, b ) );
    auto mk = [&]( size_t k, uint8_t rest ) { if ( lens[ k ] == 0 ) return Address(); Address::raw r; memset( &r, rest, sizeof r ); memcpy( &r, &all[ k ], lens[ k ] ); return Address( r, lens[ k ] ); };
    const bool want = lens[ a ] == lens[ b ] and memcmp( &all[ a ], &all[ b ], lens[ a ] ) == 0;
    mc::require( ( mk( a, 1 ) == mk( b, 2 ) ) == want, want ? "the same address is not equal to itself" : "different addresses are equal" ); mc::transition();
  }, 64 );
  mc::run( "address lengths", 400, [&]( uint64_t i ) {
    mc::describe( fmt( "length %lu", i ) ); vector<uint8_t> room( 500, 3 ); const sockaddr & s = *reinterpret_cast<sockaddr *>( room.data() );
    mc::require( throws( [&] { Address a( s, i ); mc::require( a.size() == i and memcmp( &a.to_sockaddr(), room.data(), i ) == 0, "not copied" ); } ) == ( i > sizeof( sockaddr_storage ) ), "an address of that length is accepted or refused wrongly" );
  } );
  /* only numbers are taken for numbers: nothing is looked up */
  static const char letters[] = "01259.:afgx%/ "; const unsigned nl = sizeof letters - 1, len = mc::thorough() ? 6 : 5; uint64_t ns = 0, p = 1; for ( unsigned k = 0; k <= len; k++ ) { ns += p; p *= nl; }
  mc::run( "strings as addresses", ns, [=]( uint64_t i ) {
    string s; uint64_t v = i; while ( v ) { v--; s += letters[ v % nl ]; v /= nl; }
    mc::describe( "\"" + s + "\"" );
    in_addr v4; in6_addr v6; const bool is4 = inet_pton( AF_INET, s.c_str(), &v4 ) == 1, is6 = inet_pton( AF_INET6, s.c_str(), &v6 ) == 1;
    bool ok = false; sockaddr_in6 got = any6();
    try { const Address a( s, 7 ); ok = true; memcpy( &got, &a.to_sockaddr(), min<size_t>( sizeof got, a.size() ) ); } catch ( const exception & ) {}
    mc::require( ok or not ( is4 or is6 ), "refused" );
    sockaddr_in6 want = any6(); if ( is6 ) want.sin6_addr = v6; else if ( is4 ) want = where( s, 7 );
    if ( is4 or is6 ) mc::require( memcmp( &got.sin6_addr, &want.sin6_addr, 16 ) == 0 and got.sin6_port == htons( 7 ), "another address" );
    mc::require( not ok or inet_aton( s.c_str(), &v4 ) or is6 or s.find( '%' ) != string::npos, "accepted" );
    mc::transition();
  }, 1024 );
}

/* ---- sockets ---- */
static const size_t SIZES[] = { 1, 0, 1400, 9000 };
static string payload( unsigned k, size_t n ) { string s( n, 0 ); for ( size_t j = 0; j < n; j++ ) s[ j ] = char( mc::mix( k, j ) ); return s; }
static string hex( const string & s ) { return s.size() > 20 ? fmt( "%zu bytes", s.size() ) : fmt( "%zu bytes", s.size() ); }

/* two receivers (one with timestamps), a connected and an unconnected sender, and answers */
struct Net {
  UDPSocket a, b, conn, loose; Address at_a, at_b, at_conn, at_loose; bool loose_known = false;
  struct Sent { string data; const Address * from; bool stamped; uint64_t us; };
  deque<Sent> to_a, to_b, to_conn; unsigned n = 0;
  Net()
  {
    a.set_timestamps(); a.set_reuseaddr(); a.bind( Address( "127.0.0.1", 0 ) ); b.bind( Address( "127.0.0.1", 0 ) );
    at_a = a.local_address(); at_b = b.local_address(); conn.connect( at_a ); at_conn = conn.local_address();
    mc::require( conn.peer_address() == at_a, "the connected peer is another" ); mc::require( at_a.ip() == "127.0.0.1" and at_a.port() and not ( at_a == at_b ), "the bound address is another" );
    mc::require( throws( [&] { a.peer_address(); } ), "an unconnected socket has a peer" );
  }
  uint64_t now() const { return modelled ? kernel_clock.tv_sec * 1000000ull + kernel_clock.tv_nsec / 1000 : 0; }
  void receive( UDPSocket & s, deque<Sent> & q, const string & who )
  {
    const unsigned r = s.read_count(), w = s.write_count();
    if ( q.empty() ) { mc::require( throws( [&] { s.recv(); } ), who + ": a datagram is received that was never sent" ); mc::require( s.read_count() == r, who + ": a failed receipt counts as a read" ); return; }
    if ( not modelled ) { pollfd f = { s.fd_num(), POLLIN, 0 }; poll( &f, 1, 2000 ); }
    const auto d = s.recv(); const Sent e = q.front(); q.pop_front();
    mc::require( d.payload == e.data, who + ": received " + hex( d.payload ) + " instead of the " + hex( e.data ) + " sent" );
    mc::require( d.source_address == *e.from and d.source_address.ip_port() == e.from->ip_port(), who + ": from " + d.source_address.to_string() + " instead of " + e.from->to_string() );
    if ( not e.stamped ) mc::require( d.timestamp_us == uint64_t( -1 ), who + ": a timestamp without the kernel giving any" );
    else if ( modelled ) mc::require( d.timestamp_us == e.us, who + fmt( ": received at %lu instead of %lu", d.timestamp_us, e.us ) );
    else { timeval t; gettimeofday( &t, nullptr ); const uint64_t us = t.tv_sec * 1000000ull + t.tv_usec; mc::require( d.timestamp_us <= us + 1000000 and d.timestamp_us + 900000000 > us, who + fmt( ": received at %lu, and it is %lu", d.timestamp_us, us ) ); }
    mc::require( s.read_count() == r + 1 and s.write_count() == w, who + ": the receipt does not count as one read" );
  }
  void sent( UDPSocket & s, const function<void()> & f, bool fails )
  {
    const unsigned r = s.read_count(), w = s.write_count();
    mc::require( throws( f ) == fails, fails ? "a datagram that was not sent is not reported" : "a datagram cannot be sent" );
    mc::require( s.write_count() == w + ( fails ? 0 : 1 ) and s.read_count() == r, "the number of writes is not counted correctly" );
  }
  static constexpr unsigned OPS = 14;
  string step( unsigned op )
  {
    mc::transition(); n++;
    switch ( op ) {
    case 0: case 1: case 2: case 3: { const string p = payload( n, SIZES[ op ] ); sent( conn, [&] { conn.send( p ); }, false ); to_a.push_back( { p, &at_conn, true, now() } ); return fmt( "send %zu", SIZES[ op ] ); }
    case 4: case 5: { const string p = payload( n, 10 + n ); UDPSocket & s = loose; const bool known = loose_known; sent( s, [&] { s.sendto( op == 4 ? at_a : at_b, p ); }, false );
      if ( not known ) { at_loose = Address( "127.0.0.1", s.local_address().port() ); loose_known = true; }
      ( op == 4 ? to_a : to_b ).push_back( { p, &at_loose, op == 4, now() } ); return op == 4 ? "sendto a" : "sendto b"; }
    case 6: receive( a, to_a, "a" ); return "recv a";
    case 7: receive( b, to_b, "b" ); return "recv b";
    case 8: { const string p = payload( n, 5 ); sent( a, [&] { a.sendto( at_conn, p ); }, false ); to_conn.push_back( { p, &at_a, false, 0 } ); return "a answers"; }
    case 9: { const string p = payload( n, 6 ); sent( b, [&] { b.sendto( at_conn, p ); }, false ); return "b sends to the socket that is connected to a"; }
    case 10: receive( conn, to_conn, "connected" ); return "recv connected";
    case 11: { const string p = string( 65508, 7 ); sent( conn, [&] { conn.send( p ); }, true ); return "send too much"; }
    case 12: { const string p = string( 70000, 7 ); sent( loose, [&] { loose.sendto( at_a, p ); }, true ); return "sendto too much"; }
    default: { UDPSocket fresh; const string p = payload( n, 3 ); sent( fresh, [&] { fresh.send( p ); }, true ); return "send unconnected"; }
    }
  }
};
static bool loopback()
{
  const int fd = syscall( SYS_socket, AF_INET6, SOCK_DGRAM, 0 ); if ( fd < 0 ) return false;
  sockaddr_in6 x = where( "127.0.0.1", 0 ); const bool ok = syscall( SYS_bind, fd, &x, sizeof x ) == 0; close( fd ); return ok;
}
static void histories( const string & name, unsigned depth )
{
  uint64_t n = 1; for ( unsigned k = 0; k < depth; k++ ) n *= Net::OPS;
  auto once = [=]( uint64_t i ) {
    mc::Digits d( i ); string o; boot(); Net net; uint64_t h = 0;
    for ( unsigned k = 0; k < depth; k++ ) { const unsigned op = d( Net::OPS ); mc::describe( o + fmt( "operation %u", op ) ); o += net.step( op ) + ", "; h = mc::mix( h, net.to_a.size() * 64 + net.to_b.size() * 8 + net.to_conn.size() ); mc::state( mc::mix( h, k ) ); }
    mc::describe( o + "receive all" );
    for ( int r = 0; r < 8; r++ ) { net.receive( net.a, net.to_a, "a" ); net.receive( net.b, net.to_b, "b" ); net.receive( net.conn, net.to_conn, "connected" ); }
    if ( i % 10007 == 0 ) mc::sample( o + "and every datagram arrives" );
  };
  mc::run( name, n, [=]( uint64_t i ) {
    if ( modelled ) { once( i ); return; }
    mc::on_real_network( [&] { once( i ); } );
  }, 64 );
}
struct Wrapped : public Socket { Wrapped( FileDescriptor && f, int d, int t ) : Socket( move( f ), d, t ) {} };
static void sockets()
{
  const unsigned dp = mc::only == "safety" ? 4 : mc::thorough() ? 9 : 7; uint64_t np = 1; for ( unsigned k = 0; k < dp; k++ ) np *= 6;
  mc::run( "pairs of sockets", np, [=]( uint64_t i ) {
    mc::Digits d( i ); boot(); auto p = UnixDomainSocket::make_pair(); deque<string> to[ 2 ]; string o;
    for ( unsigned k = 0; k < dp; k++ ) {
      const unsigned op = d( 6 ), end = op & 1; UnixDomainSocket & s = end ? p.second : p.first; o += to_string( op ); mc::describe( "operations " + o );
      if ( op < 4 ) { const string x = payload( k, op < 2 ? 1 : 100 + k ); const unsigned w = s.write_count(); s.write( x ); mc::require( s.write_count() == w + 1, "not counted" ); to[ 1 - end ].push_back( x ); }
      else if ( to[ end ].size() ) { const unsigned r = s.read_count(); mc::require( s.read() == to[ end ].front(), "other bytes arrive" ); mc::require( s.read_count() == r + 1, "not counted" ); to[ end ].pop_front(); }
      mc::transition(); mc::state( mc::mix( to[ 0 ].size(), to[ 1 ].size() ) );
    }
  }, 256 );
  histories( "histories", mc::only == "safety" ? 3 : mc::thorough() ? 6 : 5 );
  if ( loopback() ) { modelled = false; histories( "histories on the real loopback", mc::thorough() ? 4 : 3 ); modelled = true; }

  mc::run( "every datagram size", 65508, [&]( uint64_t n ) {
    mc::describe( fmt( "%lu bytes", n ) ); boot(); UDPSocket a, b; a.bind( Address( "::1", 5000 ) ); const string p = payload( n, n );
    if ( n & 1 ) b.sendto( Address( "::1", 5000 ), p ); else { b.connect( Address( "::1", 5000 ) ); b.send( p ); }
    mc::require( a.recv().payload == p, "other bytes are received" ); mc::transition( 2 );
  }, 128 );
  mc::run( "datagrams beyond the buffer, and flags", 65536 / 8 + 3000, [&]( uint64_t i ) {
    boot(); UDPSocket a; a.bind( Address( "::1", 5000 ) ); Sock & s = *sock( a.fd_num() ); const bool big = i < 3000; const int fl = big ? 0 : int( i - 3000 ) * 8 & 0xffff & ~MSG_TRUNC;
    const size_t n = big ? 64000 + i : 100; mc::describe( fmt( "%zu bytes, flags %x", n, fl ) ); flags_out = fl;
    s.in.push_back( { payload( 1, n ), where( "::1", 9 ), {} } ); s.in.push_back( { payload( 2, 50 ), where( "::1", 9 ), {} } );
    const bool bad = n > 65536 or fl; string got; const bool t = throws( [&] { got = a.recv().payload; } );
    mc::require( t == bad, bad ? "a datagram that was cut or flagged is delivered" : "a good datagram is refused" );
    if ( not bad ) mc::require( got == payload( 1, n ), "other bytes are received" );
    mc::require( a.recv().payload == payload( 2, 50 ), "the next datagram does not arrive" ); mc::transition( 2 );
  }, 128 );
  /* control messages in every order, every timestamp of an alphabet */
  static const timespec TIMES[] = { { 0, 0 }, { 0, 1 }, { 0, 999 }, { 0, 1000 }, { 0, 999999999 }, { 1, 0 }, { 1600000000, 123456789 }, { 2147483647, 999999999 }, { 2147483648, 1 }, { 4294967295, 5000 }, { 4294967296, 999000 }, { 9000000000, 999999000 } };
  const unsigned kinds = 7, nt = sizeof TIMES / sizeof *TIMES, many = mc::thorough() ? 5 : 4; uint64_t combos = nt; for ( unsigned k = 0; k < many; k++ ) combos *= kinds;
  mc::run( "control messages", combos, [=]( uint64_t i ) {
    mc::Digits d( i ); const timespec ts = TIMES[ d( nt ) ]; vector<int> kind; bool stamped = false; string o; for ( unsigned k = 0; k < many; k++ ) { kind.push_back( d( kinds ) ); o += to_string( kind.back() ); stamped |= kind.back() == 1; }
    mc::describe( "messages " + o + fmt( ", time %ld.%09ld", ts.tv_sec, ts.tv_nsec ) ); boot(); UDPSocket a; a.bind( Address( "::1", 5000 ) ); a.set_timestamps();
    sock( a.fd_num() )->in.push_back( { "x", where( "::1", 9 ), {} } );
    control = [&]( msghdr * h ) {
      size_t used = 0; char * base = static_cast<char *>( h->msg_control );
      auto put = [&]( int level, int type, const void * p, size_t n ) { if ( used + CMSG_SPACE( n ) > h->msg_controllen ) mc::fail( "there is no room for the timestamp" ); memset( base + used, 0, CMSG_SPACE( n ) ); cmsghdr * c = reinterpret_cast<cmsghdr *>( base + used ); c->cmsg_level = level; c->cmsg_type = type; c->cmsg_len = CMSG_LEN( n ); memcpy( CMSG_DATA( c ), p, n ); used += CMSG_SPACE( n ); };
      const timeval tv = { 77, 88 }; const timespec other = { 5, 6 }; const int v = 3; const uint8_t tos = 9;
      for ( int k : kind ) switch ( k ) {
        case 1: put( SOL_SOCKET, SO_TIMESTAMPNS, &ts, sizeof ts ); break; case 2: put( SOL_SOCKET, SO_TIMESTAMP, &tv, sizeof tv ); break;
        case 3: put( SOL_SOCKET, SO_RXQ_OVFL, &v, sizeof v ); break; case 4: put( IPPROTO_IPV6, SO_TIMESTAMPNS, &other, sizeof other ); break;
        case 5: put( IPPROTO_IP, IP_TOS, &tos, 1 ); break; case 6: put( SOL_SOCKET, SO_TIMESTAMPING, &other, sizeof other ); break; }
      h->msg_controllen = used;
    };
    const auto got = a.recv(); const uint64_t want = stamped ? ts.tv_sec * 1000000ull + ts.tv_nsec / 1000 : uint64_t( -1 );
    mc::require( got.timestamp_us == want, fmt( "timestamp %lu instead of %lu", got.timestamp_us, want ) ); mc::require( got.payload == "x", "other bytes" ); mc::transition();
  }, 128 );
  /* every call fails, in every way */
  static const int ERRORS[] = { EAGAIN, EINTR, EBADF, ECONNREFUSED, EMSGSIZE, ENOBUFS, ENOMEM, EPERM, EACCES, ENETUNREACH, EHOSTUNREACH, ENETDOWN, EPIPE, EINVAL, EADDRINUSE, EMFILE, ENOTCONN };
  const unsigned ne = sizeof ERRORS / sizeof *ERRORS;
  mc::run( "calls that fail", ne * 11, [&]( uint64_t i ) {
    mc::Digits d( i ); const unsigned call = d( 11 ); const int e = ERRORS[ d( ne ) ]; mc::describe( fmt( "call %u fails with error %d", call, e ) ); boot();
    UDPSocket a, b; a.bind( Address( "::1", 5000 ) ); b.connect( Address( "::1", 5000 ) ); sock( a.fd_num() )->in.push_back( { "first", where( "::1", 9 ), {} } );
    const unsigned r = a.read_count(), w = b.write_count(); int code = 0;
    auto attempt = [&]( const function<void()> & f, int * err ) { *err = err == &shorten ? 1 : e; bool t = false; try { f(); } catch ( const mc::Violation & ) { throw; } catch ( const system_error & x ) { t = true; code = x.code().value(); } catch ( const exception & ) { t = true; } mc::require( t, "a call that failed is not reported" ); mc::require( *err == 0, "the call was not made" ); if ( err != &shorten ) mc::require( code == e, fmt( "error %d is reported as %d", e, code ) ); };
    switch ( call ) {
      case 0: attempt( [&] { UDPSocket x; }, &fail_with ); break; case 1: attempt( [&] { a.bind( Address( "::1", 1 ) ); }, &fail_with ); break; case 2: attempt( [&] { a.connect( Address( "::1", 1 ) ); }, &fail_with ); break;
      case 3: attempt( [&] { a.recv(); }, &fail_with ); break; case 4: attempt( [&] { b.send( "xyz" ); }, &fail_with ); break; case 5: attempt( [&] { b.sendto( Address( "::1", 5000 ), "xyz" ); }, &fail_with ); break;
      case 6: attempt( [&] { a.local_address(); }, &fail_with ); break; case 7: attempt( [&] { b.peer_address(); }, &fail_with ); break; case 8: attempt( [&] { a.set_timestamps(); }, &fail_with ); break;
      case 9: attempt( [&] { b.send( "xyz" ); }, &shorten ); sock( a.fd_num() )->in.pop_back(); break; default: attempt( [&] { b.sendto( Address( "::1", 5000 ), "xyz" ); }, &shorten ); sock( a.fd_num() )->in.pop_back(); break;
    }
    mc::require( a.read_count() == r and b.write_count() == w, "a failed call counts as a read or write" );
    b.send( "second" ); mc::require( a.recv().payload == "first" and a.recv().payload == "second", "after the failed call the datagrams are others" ); mc::transition( 4 );
  } );
  mc::run( "options", 4, [&]( uint64_t i ) {
    mc::describe( fmt( "options %lu", i ) ); boot(); UDPSocket a; if ( i & 1 ) a.set_timestamps(); if ( i & 2 ) a.set_reuseaddr(); const auto & o = sock( a.fd_num() )->options; size_t k = 0; const int one = 1; const string on( reinterpret_cast<const char *>( &one ), 4 );
    mc::require( made.size() == 1 and made[ 0 ].first == AF_INET6 and made[ 0 ].second == SOCK_DGRAM, "another kind of socket is made" );
    if ( i & 1 ) { mc::require( o.size() > k and o[ k ].level == SOL_SOCKET and o[ k ].name == SO_TIMESTAMPNS and o[ k ].value == on, "timestamps are not asked for" ); k++; }
    if ( i & 2 ) { mc::require( o.size() > k and o[ k ].level == SOL_SOCKET and o[ k ].name == SO_REUSEADDR and o[ k ].value == on, "reuse of the address is not asked for" ); k++; }
    mc::require( o.size() == k, "other options are set" );
  } );
  /* descriptors that are not what they are taken for */
  mc::run( "kinds of sockets", 4 * 3 * 9, [&]( uint64_t i ) {
    mc::Digits d( i ); const int kind = d( 4 ), wrong = d( 3 ), len = d( 9 ); boot(); modelled = false; int fds[ 2 ];
    static const int K[ 4 ][ 2 ] = { { AF_UNIX, SOCK_DGRAM }, { AF_UNIX, SOCK_STREAM }, { AF_UNIX, SOCK_SEQPACKET }, { -1, -1 } };
    mc::describe( fmt( "kind %d, wrong value %d, length %d", kind, wrong, len ) );
    if ( kind == 3 ) { if ( pipe( fds ) ) _exit( 2 ); } else if ( socketpair( K[ kind ][ 0 ], K[ kind ][ 1 ], 0, fds ) ) _exit( 2 );
    opt_len = len; opt_value = wrong == 1 ? SO_DOMAIN : wrong == 2 ? SO_TYPE : -2; const bool good = kind == 0 and wrong == 0 and len == 4;
    const bool odd = wrong and len != 4; /* one option of another value, the other of another length */
    { FileDescriptor f( fds[ 0 ] ); const bool t = throws( [&] { Wrapped s( move( f ), AF_UNIX, SOCK_DGRAM ); } ); opt_len = -1; modelled = true; mc::require( odd ? t : t != good, t ? "a socket of the right kind is refused" : "a descriptor of another kind is accepted" ); }
    close( fds[ 1 ] ); mc::transition();
  } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  if ( mc::only != "safety" ) addresses();
  sockets();
  return mc::finish();
}
