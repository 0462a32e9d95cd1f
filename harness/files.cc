/* P16: IVF files. P21: YUV4MPEG streams. The real readers and writers run on files in memory (memfd); writes and
   reads are interposed, so that they can be torn, cut short or stopped at every point. */
#include "mc.hh"
#include <memory>
#include <set>
#include <new>
#include <iostream>
#include <sys/syscall.h>
#include <sys/stat.h>
#include "ivf.hh"
#include "ivf_writer.hh"
#include "yuv4mpeg.hh"
#include "player.hh"
#include "ivf_reader.hh"
#include "decoder.hh"
using namespace std;
using mc::fmt;

/* ---- what a parse may allocate ---- */
static size_t alloc_total = 0, alloc_limit = 0; static bool alloc_refused = false;
void * operator new( size_t n )
{
  if ( alloc_limit ) { alloc_total += n; if ( alloc_total > alloc_limit ) { alloc_refused = true; throw std::bad_alloc(); } }
  void * p = malloc( n ? n : 1 ); if ( not p ) throw std::bad_alloc(); return p;
}
void operator delete( void * p ) noexcept { free( p ); }
void operator delete( void * p, size_t ) noexcept { free( p ); }

/* ---- the environment: descriptors under test ---- */
static int watched = -1;                 /* writes and reads on this descriptor are controlled */
static int64_t stop_after = -1;          /* bytes that can still be written before the process "dies" */
static int64_t full_after = -1;          /* bytes that can still be written before the disk is full */
static uint64_t splits = 0; static int split_at = 0; /* bit k: after byte k of the transfer the call returns */
static size_t max_chunk = 0;             /* most bytes moved by one call (0: all) */
static uint64_t bytes_moved = 0, calls = 0;
struct Died {};
static size_t cut( size_t n )
{
  if ( max_chunk and n > max_chunk ) n = max_chunk;
  if ( splits ) for ( size_t k = 1; k < n; k++ ) if ( bytes_moved + k < 64 and ( splits >> ( bytes_moved + k ) & 1 ) ) return k;
  return n;
}
extern "C" ssize_t write( int fd, const void * p, size_t n )
{
  if ( fd != watched or n == 0 ) return syscall( SYS_write, fd, p, n );
  calls++;
  size_t k = cut( n );
  if ( stop_after >= 0 ) {
    if ( (int64_t) k >= stop_after ) { if ( stop_after ) syscall( SYS_write, fd, p, (size_t) stop_after ); throw Died(); }
    stop_after -= k;
  }
  if ( full_after >= 0 ) {
    if ( full_after == 0 ) { errno = ENOSPC; return -1; }
    if ( (int64_t) k > full_after ) k = full_after;
    full_after -= k;
  }
  bytes_moved += k;
  return syscall( SYS_write, fd, p, k );
}
extern "C" ssize_t read( int fd, void * p, size_t n )
{
  if ( fd != watched or n == 0 ) return syscall( SYS_read, fd, p, n );
  calls++;
  const ssize_t r = syscall( SYS_read, fd, p, cut( n ) );
  if ( r > 0 ) bytes_moved += r;
  return r;
}
static void calm() { watched = -1; stop_after = full_after = -1; splits = 0; max_chunk = 0; bytes_moved = calls = 0; }

struct Mem {
  int fd; string path;
  Mem() : fd( syscall( SYS_memfd_create, "v", 0 ) ), path( "/proc/self/fd/" + to_string( fd ) ) { if ( fd < 0 ) { perror( "memfd" ); _exit( 2 ); } }
  explicit Mem( const string & s ) : Mem() { size_t o = 0; while ( o < s.size() ) { ssize_t k = syscall( SYS_write, fd, s.data() + o, s.size() - o ); if ( k <= 0 ) _exit( 2 ); o += k; } lseek( fd, 0, SEEK_SET ); }
  ~Mem() { close( fd ); }
  string bytes() const { struct stat st; fstat( fd, &st ); string s( st.st_size, 0 ); size_t o = 0; while ( o < s.size() ) { ssize_t k = pread( fd, &s[ o ], s.size() - o, o ); if ( k <= 0 ) _exit( 2 ); o += k; } return s; }
};
static string content( size_t n, uint32_t seed )
{
  string v( n, 0 ); uint64_t x = seed * 2654435761u + 12345;
  for ( auto & b : v ) { x = x * 6364136223846793005ull + 1442695040888963407ull; b = x >> 56; }
  return v;
}
static void put( string & s, uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) s.push_back( (char)( v >> ( 8 * i ) ) ); }
static uint64_t get( const string & s, size_t at, int n ) { uint64_t v = 0; for ( int i = n; i-- > 0; ) v = v << 8 | (uint8_t) s[ at + i ]; return v; }

/* ---- an independent reading of the IVF format ---- */
struct Ivf { bool ok = false; string fourcc; uint64_t w = 0, h = 0, rate = 0, scale = 0, count = 0, mini = 0; vector<pair<uint64_t, uint64_t>> index; };
static Ivf understand( const string & s )
{
  Ivf r;
  if ( s.size() < 32 or s.substr( 0, 4 ) != "DKIF" or get( s, 4, 2 ) != 0 or get( s, 6, 2 ) != 32 ) return r;
  r.fourcc = s.substr( 8, 4 ); r.w = get( s, 12, 2 ); r.h = get( s, 14, 2 ); r.rate = get( s, 16, 4 ); r.scale = get( s, 20, 4 );
  r.count = get( s, 24, 4 ); r.mini = get( s, 28, 4 );
  uint64_t at = 32;
  for ( uint64_t i = 0; i < r.count; i++ ) {
    if ( at + 12 > s.size() ) return r;
    const uint64_t n = get( s, at, 4 ); r.index.emplace_back( at + 12, n ); at += 12 + n;
  }
  r.ok = true;
  return r;
}
/* the last frames may be reported as damaged either when the file is opened or when they are asked for;
   whatever is returned must be what the file says */
static void judge_ivf( const string & s, const string & what )
{
  const Ivf m = understand( s );
  Mem f( s );
  bool opened = false;
  alloc_total = 0; alloc_refused = false; alloc_limit = 64 * s.size() + 65536;
  try {
    IVF ivf( f.path );
    alloc_limit = 0; opened = true;
    mc::require( m.ok, what + ": a damaged file is opened without complaint" );
    mc::require( ivf.fourcc() == m.fourcc and ivf.width() == m.w and ivf.height() == m.h and ivf.frame_rate() == m.rate
                 and ivf.time_scale() == m.scale and ivf.frame_count() == m.count and ivf.expected_decoder_minihash() == m.mini
                 and ivf.size() == s.size(), what + ": a header field is misread" );
    for ( uint64_t i = 0; i < m.count; i++ ) {
      const bool inside = m.index[ i ].first + m.index[ i ].second <= s.size();
      bool got = false;
      try {
        const Chunk c = ivf.frame( i ); got = true;
        if ( inside ) mc::require( c.to_string() == s.substr( m.index[ i ].first, m.index[ i ].second ), what + fmt( ": frame %lu is not what the file holds", i ) );
      } catch ( const mc::Violation & ) { throw; } catch ( const std::exception & ) {}
      mc::require( got or not inside, what + fmt( ": frame %lu cannot be read", i ) );
      mc::require( inside or not got, what + fmt( ": frame %lu reaches outside the file", i ) );
    }
    for ( uint64_t i : { m.count, m.count + 1, uint64_t( 0xffffffff ) } ) if ( i >= m.count ) {
      bool refused = false; try { ivf.frame( i ); } catch ( const std::exception & ) { refused = true; }
      mc::require( refused, what + ": a frame beyond the last is returned" );
    }
  } catch ( const mc::Violation & ) { alloc_limit = 0; throw; }
  catch ( const std::exception & e ) { alloc_limit = 0; if ( opened ) throw; }
  alloc_limit = 0;
  mc::require( not alloc_refused, what + ": opening it allocates memory out of proportion to the file" );
  if ( not opened ) {
    bool late = false; for ( auto & x : m.index ) if ( x.first + x.second > s.size() ) late = true;
    mc::require( not m.ok or late, what + ": a sound file is refused" );
  }
  mc::transition(); mc::count( opened ? 0 : 1 );
}

struct Expect { string fourcc; uint64_t w, h, rate, scale, mini = 0; vector<string> frames; };
static void same_file( const string & path, const Expect & e, const string & what )
{
  IVF ivf( path );
  mc::require( ivf.fourcc() == e.fourcc and ivf.width() == e.w and ivf.height() == e.h and ivf.frame_rate() == e.rate
               and ivf.time_scale() == e.scale and ivf.expected_decoder_minihash() == e.mini, what + ": a header field is not what was written" );
  mc::require( ivf.frame_count() == e.frames.size(), what + fmt( ": %u frames instead of %zu", ivf.frame_count(), e.frames.size() ) );
  for ( size_t i = 0; i < e.frames.size(); i++ )
    mc::require( ivf.frame( i ).to_string() == e.frames[ i ], what + fmt( ": frame %zu is not what was written", i ) );
}

static const vector<uint64_t> B16 = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff };
static const vector<uint64_t> B32 = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000, 0xff000000, 0xfffffffe, 0xffffffff };

static void p16()
{
  static const vector<size_t> SZ = { 0, 1, 2, 11, 12, 13, 31, 32, 33, 255, 256, 4095, 4096, 65535, 65536, 70000 };
  static const int NS = SZ.size();
  /* every history of appends and hash settings; the file is read back after every step */
  const int depth = mc::thorough() ? 5 : 4; const int A = 9;
  uint64_t n = 1; for ( int i = 0; i < depth; i++ ) n *= A;
  auto history = [&]( uint64_t idx, int depth, int A, bool small ) {
    mc::Digits d( idx ); vector<int> ops( depth ); for ( auto & o : ops ) o = d( A );
    Mem f; calm();
    const int variant = idx % 2;
    unique_ptr<IVFWriter> w( variant ? new IVFWriter( f.path, "VP80", 176 + idx % 1000, 144, 30, 1 ) : new IVFWriter( FileDescriptor( dup( f.fd ) ), "abcd", 16, 33 + idx % 77, 0xfffffff0, 0x80000001 ) );
    Expect e; e.fourcc = variant ? "VP80" : "abcd"; e.w = variant ? 176 + idx % 1000 : 16; e.h = variant ? 144 : 33 + idx % 77; e.rate = variant ? 30 : 0xfffffff0; e.scale = variant ? 1 : 0x80000001;
    mc::require( w->width() == e.w and w->height() == e.h, "the writer's picture size" );
    string what = "history:"; same_file( f.path, e, what );
    uint64_t h = 1;
    for ( int s = 0; s < depth; s++ ) {
      const int o = ops[ s ];
      if ( o == A - 1 ) { e.mini = 0x80c0ffeeu + s * 0x01010101u; w->set_expected_decoder_entry_hash( e.mini ); what += " hash"; }
      else {
        const size_t z = small ? SZ[ ( o * 3 + 1 ) % 9 ] : SZ[ o ]; what += fmt( " append(%zu)", z );
        const string c = content( z, s * 31 + o ); const size_t before = f.bytes().size();
        const size_t at = w->append_frame( Chunk( c ) );
        e.frames.push_back( c );
        mc::require( at == before + 12, what + ": the offset returned is not where the frame's data begin" );
      }
      mc::describe( what ); same_file( f.path, e, what );
      h = mc::mix( h, o + 1 ); mc::state( h ); mc::transition();
    }
    w.reset(); same_file( f.path, e, what + " close" );
    mc::require( understand( f.bytes() ).ok, "not an IVF file" );
    if ( idx % 1009 == 3 ) mc::sample( what );
  };
  mc::run( fmt( "append histories, depth %d", depth ), n, [&]( uint64_t i ) { history( i, depth, A, true ); }, 16 );
  mc::run( "append histories over all sizes, depth 3", (uint64_t)( NS + 1 ) * ( NS + 1 ) * ( NS + 1 ), [&]( uint64_t i ) { history( i, 3, NS + 1, false ); }, 16 );
  /* many frames */
  mc::run( "long files", 8, [&]( uint64_t i ) {
    static const int N[] = { 255, 256, 257, 1000, 65535, 65536, 65537, 70000 };
    Mem f; calm(); Expect e; e.fourcc = "VP80"; e.w = 1; e.h = 2; e.rate = 3; e.scale = 4;
    IVFWriter w( f.path, e.fourcc, e.w, e.h, e.rate, e.scale );
    mc::describe( fmt( "%d frames", N[ i ] ) );
    for ( int k = 0; k < N[ i ]; k++ ) { e.frames.push_back( content( k % 7, k ) ); w.append_frame( Chunk( e.frames.back() ) ); }
    same_file( f.path, e, fmt( "%d frames", N[ i ] ) ); mc::transition( N[ i ] );
  } );
  mc::run( "header fields", 5 * 5 * 17 * 17, []( uint64_t i ) {
    mc::Digits d( i ); const int a = d( 5 ), b = d( 5 ), va = d( 17 ), vb = d( 17 );
    Expect e; e.fourcc = string( "\0\xff" "DK", 4 ); e.w = 0x1122; e.h = 0x3344; e.rate = 0x55667788; e.scale = 0x99aabbcc;
    uint64_t * fp[] = { &e.w, &e.h, &e.rate, &e.scale, &e.mini };
    *fp[ a ] = a < 2 ? B16[ va % 13 ] : B32[ va ]; *fp[ b ] = b < 2 ? B16[ vb % 13 ] : B32[ vb ];
    mc::describe( fmt( "header %lx %lx %lx %lx %lx", e.w, e.h, e.rate, e.scale, e.mini ) );
    Mem f; calm(); IVFWriter w( f.path, e.fourcc, e.w, e.h, e.rate, e.scale );
    e.frames = { "abc", "" }; w.append_frame( Chunk( e.frames[ 0 ] ) ); w.set_expected_decoder_entry_hash( e.mini ); w.append_frame( Chunk( e.frames[ 1 ] ) );
    same_file( f.path, e, "file" ); mc::state( mc::hash_bytes( f.bytes().data(), 32 ) ); mc::transition( 3 );
    for ( const char * bad : { "", "VP8", "VP80x" } ) { bool refused = false; Mem g; try { IVFWriter x( g.path, bad, 1, 1, 1, 1 ); } catch ( const std::exception & ) { refused = true; } mc::require( refused, "a FourCC of the wrong length is accepted" ); }
  }, 16 );
  /* the writer dies, or the disk fills up, after any byte; writes are torn in pieces of any size */
  static const vector<vector<size_t>> H = { { 5 }, { 0, 3 }, { 40, 0, 7 }, { 1, 13, 2, 30 }, { 100, 50 } };
  mc::run( "writer stops at any byte", H.size() * 2 * 4 * 260, []( uint64_t i ) {
    mc::Digits d( i ); const auto & sizes = H[ d( H.size() ) ]; const int kind = d( 2 ); static const size_t pieces[] = { 0, 1, 3, 7 }; const size_t piece = pieces[ d( 4 ) ];
    const int64_t at = d( 260 ); int64_t total = 0; for ( auto s : sizes ) total += s + 12;
    if ( at > total ) return;
    mc::describe( fmt( "%zu appends, %s after %ld bytes, writes of %zu bytes", sizes.size(), kind ? "disk full" : "killed", at, piece ) );
    Mem f; calm(); vector<string> done; string inflight;
    Expect e; e.fourcc = "VP80"; e.w = 16; e.h = 16; e.rate = 1; e.scale = 1;
    IVFWriter w( FileDescriptor( dup( f.fd ) ), e.fourcc, e.w, e.h, e.rate, e.scale );
    /* the writer's descriptor is the next one that dup gave: find it by its inode */
    for ( int fd = f.fd + 1; fd < 64; fd++ ) { struct stat a, b; if ( fstat( fd, &a ) == 0 and fstat( f.fd, &b ) == 0 and a.st_ino == b.st_ino and a.st_dev == b.st_dev ) watched = fd; }
    mc::require( watched >= 0, "harness: no writer descriptor" );
    ( kind ? full_after : stop_after ) = at; max_chunk = piece;
    bool stopped = false;
    for ( size_t k = 0; k < sizes.size() and not stopped; k++ ) {
      const string c = content( sizes[ k ], k ); inflight = c;
      try { w.append_frame( Chunk( c ) ); done.push_back( c ); inflight.clear(); }
      catch ( const Died & ) { stopped = true; } catch ( const std::exception & ) { stopped = true; }
      mc::transition();
    }
    calm();
    if ( kind and at == total ) mc::require( not stopped, "harness: unexpected stop" );
    if ( not stopped ) mc::require( done.size() == sizes.size(), "harness" );
    e.frames = done;
    bool whole = false;
    try { same_file( f.path, e, "after the stop" ); whole = true; } catch ( const mc::Violation & ) {}
    if ( not whole ) { /* the frame that was being written may be there, complete */
      e.frames.push_back( inflight ); same_file( f.path, e, "after the stop" );
    }
  }, 16 );
  /* every cut, and every value of every byte */
  auto sample_file = []( int which ) {
    string s = "DKIF"; put( s, 0, 2 ); put( s, 32, 2 ); s += "VP80"; put( s, 176, 2 ); put( s, 144, 2 ); put( s, 30, 4 ); put( s, 1, 4 );
    static const vector<vector<size_t>> F = { { 10, 0, 3 }, { 300, 5 }, { 1 }, {}, { 0, 0, 0, 0 }, { 64, 64, 64 } };
    put( s, F[ which ].size(), 4 ); put( s, 0xfeedbeef, 4 );
    for ( size_t k = 0; k < F[ which ].size(); k++ ) { put( s, F[ which ][ k ], 4 ); put( s, 0x1111222233334444ull * k, 8 ); s += content( F[ which ][ k ], k ); }
    return s;
  };
  mc::run( "files cut at any byte", 6 * 420, [=]( uint64_t i ) {
    mc::Digits d( i ); const int w = d( 6 ); const size_t n = d( 420 ); const string s = sample_file( w );
    if ( n > s.size() + 4 ) return;
    mc::describe( fmt( "file %d cut to %zu bytes", w, n ) );
    judge_ivf( n <= s.size() ? s.substr( 0, n ) : s + string( n - s.size(), 'x' ), fmt( "file %d cut to %zu bytes", w, n ) );
  }, 8 );
  mc::run( "files with any byte replaced", 3 * 110 * 256, [=]( uint64_t i ) {
    mc::Digits d( i ); const int w = (int[]) { 0, 2, 4 }[ d( 3 ) ]; const size_t at = d( 110 ); const int v = d( 256 ); string s = sample_file( w );
    if ( at >= s.size() ) return;
    s[ at ] = v; mc::describe( fmt( "file %d with byte %zu = %d", w, at, v ) ); judge_ivf( s, fmt( "file %d with byte %zu = %d", w, at, v ) );
    mc::state( mc::hash_bytes( s.data(), s.size() ) );
  }, 32 );
  mc::run( "lengths and counts", 6 * 5 * 17 * 17, [=]( uint64_t i ) {
    mc::Digits d( i ); const int w = d( 6 ); const int k = d( 5 ); const uint64_t count = B32[ d( 17 ) ], len = B32[ d( 17 ) ]; string s = sample_file( w );
    for ( int b = 0; b < 4; b++ ) s[ 24 + b ] = count >> ( 8 * b );
    const Ivf m = understand( sample_file( w ) );
    if ( k < (int) m.index.size() ) for ( int b = 0; b < 4; b++ ) s[ m.index[ k ].first - 12 + b ] = len >> ( 8 * b );
    else if ( k > (int) m.index.size() ) return;
    const string what = fmt( "file %d with %lu frames, length %d = %lu", w, count, k, len );
    mc::describe( what ); judge_ivf( s, what );
  }, 16 );
}

/* ================= P21 ================= */
struct Pic { int w, h; string y, u, v; };
static Pic picture( int w, int h, uint32_t seed )
{
  Pic p; p.w = w; p.h = h; const int cw = ( w + 1 ) / 2, ch = ( h + 1 ) / 2;
  p.y = content( w * h, seed ); p.u = content( cw * ch, seed + 1000 ); p.v = content( cw * ch, seed + 2000 );
  return p;
}
static string frame_bytes( const Pic & p ) { return "FRAME\n" + p.y + p.u + p.v; }
static void same_picture( const BaseRaster & r, const Pic & p, const string & what )
{
  mc::require( r.display_width() == p.w and r.display_height() == p.h, what + ": size of the picture" );
  auto plane = [&]( const TwoD<uint8_t> & a, const string & b, int w, int h, const char * n ) {
    for ( int y = 0; y < (int) a.height(); y++ ) for ( int x = 0; x < (int) a.width(); x++ ) {
      const int sx = min( x, w - 1 ), sy = min( y, h - 1 ); /* beyond the picture, its edge is repeated */
      if ( a.at( x, y ) != (uint8_t) b[ sy * w + sx ] ) mc::fail( what + fmt( ": plane %s differs at %d,%d", n, x, y ) );
    }
  };
  const int cw = ( p.w + 1 ) / 2, ch = ( p.h + 1 ) / 2;
  plane( r.Y(), p.y, p.w, p.h, "Y" ); plane( r.U(), p.u, cw, ch, "U" ); plane( r.V(), p.v, cw, ch, "V" );
}
static void fill( VP8Raster & r, const Pic & p )
{
  auto plane = [&]( TwoD<uint8_t> & a, const string & b, int w, int h, int seed ) {
    const string bg = content( a.width() * a.height(), seed ); /* whatever lies beyond the picture is not written */
    for ( int y = 0; y < (int) a.height(); y++ ) for ( int x = 0; x < (int) a.width(); x++ ) a.at( x, y ) = x < w and y < h ? b[ y * w + x ] : bg[ y * a.width() + x ];
  };
  const int cw = ( p.w + 1 ) / 2, ch = ( p.h + 1 ) / 2;
  plane( r.Y(), p.y, p.w, p.h, 1 ); plane( r.U(), p.u, cw, ch, 2 ); plane( r.V(), p.v, cw, ch, 3 );
}
static string header_text( int w, int h ) { return fmt( "YUV4MPEG2 W%d H%d F24:1 Ip A1:1 C420 XYSCSS=420\n", w, h ); }

struct Head { bool ok; uint64_t w = 0, h = 0, fn = 0, fd = 0, an = 0, ad = 0; int inter = 0; };
/* an independent reading of a stream header line */
static bool number( const string & s, uint64_t & v, uint64_t most )
{
  if ( s.empty() or s.size() > 12 ) return false; v = 0;
  for ( char c : s ) { if ( c < '0' or c > '9' ) return false; v = v * 10 + ( c - '0' ); }
  return v <= most;
}
static bool fraction( const string & s, uint64_t & a, uint64_t & b )
{ const size_t c = s.find( ':' ); return c != string::npos and number( s.substr( 0, c ), a, 0xffffffff ) and number( s.substr( c + 1 ), b, 0xffffffff ); }
static Head understand_header( const string & line )
{
  Head r; r.ok = false; vector<string> t; string cur;
  for ( char c : line + " " ) { if ( c == ' ' or c == '\t' or c == '\r' or c == '\v' or c == '\f' ) { if ( not cur.empty() ) t.push_back( cur ); cur.clear(); } else cur.push_back( c ); }
  if ( t.empty() or t[ 0 ] != "YUV4MPEG2" ) return r;
  for ( size_t i = 1; i < t.size(); i++ ) {
    const string v = t[ i ].substr( 1 ); bool ok = true;
    switch ( t[ i ][ 0 ] ) {
      case 'W': ok = number( v, r.w, 65535 ); break; case 'H': ok = number( v, r.h, 65535 ); break;
      case 'F': ok = fraction( v, r.fn, r.fd ); break; case 'A': ok = fraction( v, r.an, r.ad ); break;
      case 'I': { const size_t k = string( "ptbm" ).find( v ); ok = v.size() == 1 and k != string::npos; r.inter = k; break; }
      case 'C': ok = v == "420" or v == "420jpeg" or v == "420paldv" or v == "420mpeg2"; break;
      case 'X': break; default: ok = false;
    }
    if ( not ok ) return r;
  }
  r.ok = r.w and r.h; return r;
}
static void judge_header( const string & line, bool newline = true )
{
  const Head m = understand_header( line ); const bool sound = m.ok and newline;
  Mem f( line + ( newline ? "\n" : "" ) );
  bool accepted = false;
  try {
    YUV4MPEGReader r( FileDescriptor( dup( f.fd ) ) );
    accepted = true;
    if ( sound ) {
      const YUV4MPEGHeader h = r.header();
      mc::require( h.width == m.w and h.height == m.h and r.display_width() == m.w and r.display_height() == m.h, "header \"" + line + "\": picture size misread" );
      mc::require( h.fps_numerator == m.fn and h.fps_denominator == m.fd, "header \"" + line + "\": frame rate misread" );
      mc::require( h.pixel_aspect_ratio_numerator == m.an and h.pixel_aspect_ratio_denominator == m.ad, "header \"" + line + "\": pixel aspect misread" );
      mc::require( (int) h.interlacing_mode == m.inter, "header \"" + line + "\": interlacing misread" );
      const size_t c = ( ( m.w + 1 ) / 2 ) * ( ( m.h + 1 ) / 2 );
      mc::require( r.y_plane_length() == m.w * m.h and r.uv_plane_length() == c and r.frame_length() == m.w * m.h + 2 * c, "header \"" + line + "\": plane lengths" );
      YUV4MPEGHeader again = h; Mem g( again.to_string() ); YUV4MPEGReader q( FileDescriptor( dup( g.fd ) ) ); const YUV4MPEGHeader k = q.header();
      mc::require( k.width == h.width and k.height == h.height and k.fps_numerator == h.fps_numerator and k.fps_denominator == h.fps_denominator
                   and k.pixel_aspect_ratio_numerator == h.pixel_aspect_ratio_numerator and k.pixel_aspect_ratio_denominator == h.pixel_aspect_ratio_denominator
                   and k.interlacing_mode == h.interlacing_mode, "header \"" + line + "\" written again is read differently" );
    }
  } catch ( const mc::Violation & ) { throw; }
  catch ( const std::exception & ) { }
  mc::require( accepted or not sound, "a header that can be understood is refused: \"" + line + "\"" );
  mc::require( sound or not accepted, "a header that cannot be understood is accepted: \"" + line + "\"" + ( newline ? "" : " (cut short)" ) );
  mc::transition(); mc::count( accepted ? 2 : 3 );
}

static void p21()
{
  const int M = mc::thorough() ? 70 : 36;
  /* every picture size: written by the real writer, compared with an independent layout; read by the real reader */
  auto one_size = []( int w, int h ) {
    mc::isolated( [=] {
      calm();
      mc::describe( fmt( "pictures of %dx%d", w, h ) );
      Mem f; string expect = header_text( w, h ); vector<Pic> pics;
      {
        FileDescriptor fd( dup( f.fd ) );
        for ( int k = 0; k < 3; k++ ) {
          pics.push_back( picture( w, h, k * 7 + w * 131 + h ) );
          MutableRasterHandle m( w, h ); fill( m.get(), pics.back() );
          if ( k == 0 ) { YUV4MPEGHeader hd( m.get() ); fd.write( hd.to_string() ); }
          YUV4MPEGFrameWriter::write( m.get(), fd ); expect += frame_bytes( pics.back() );
        }
      }
      mc::require( f.bytes() == expect, fmt( "the stream written for %dx%d pictures is not header, FRAME and the three planes", w, h ) );
      lseek( f.fd, 0, SEEK_SET );
      YUV4MPEGReader r( f.path ); vector<RasterHandle> keep;
      for ( int k = 0; k < 3; k++ ) { auto p = r.get_next_frame(); mc::require( p.initialized(), "a picture is missing" ); keep.push_back( p.get() ); mc::transition(); }
      for ( int k = 0; k < 3; k++ ) same_picture( keep[ k ].get(), pics[ k ], fmt( "picture %d of %dx%d", k, w, h ) );
      mc::require( not r.get_next_frame().initialized(), "a picture after the end" );
      mc::require( r.frame_length() == pics[ 0 ].y.size() + 2 * pics[ 0 ].u.size(), "frame_length()" );
      mc::state( mc::mix( w, h ) );
    } );
  };
  mc::run( "picture sizes", M * M, [=]( uint64_t i ) { one_size( 1 + i % M, 1 + i / M ); }, 4 );
  mc::run( "long thin pictures", 4 * 6, [=]( uint64_t i ) {
    static const int big[] = { 255, 256, 257, 1023, 4096, 4111 }; const int b = big[ i / 4 ], s = 1 + i % 2 * 16;
    if ( i & 2 ) one_size( b, s ); else one_size( s, b );
  } );
  /* every way in which reads can be split, and every point at which the stream can end */
  static const vector<pair<int, int>> SP = { { 2, 2 }, { 3, 3 }, { 5, 1 }, { 1, 5 }, { 4, 3 } };
  const int bits = mc::thorough() ? 19 : 16;
  for ( auto s : SP ) mc::run( fmt( "split reads of %dx%d", s.first, s.second ), 1u << bits, [=]( uint64_t i ) {
    const int w = s.first, h = s.second; calm();
    static Pic p; static string stream; static int have = 0; static int fd = -1; static Mem * f = nullptr;
    if ( have != w * 100 + h ) { p = picture( w, h, 5 ); stream = header_text( w, h ) + frame_bytes( p ) + frame_bytes( p ); have = w * 100 + h; delete f; f = new Mem( stream ); }
    mc::describe( fmt( "%dx%d, split pattern %lx", w, h, i ) );
    lseek( f->fd, 0, SEEK_SET ); fd = dup( f->fd );
    YUV4MPEGReader r( ( FileDescriptor( fd ) ) );
    watched = fd; splits = i << 7 | 1ull << 63; bytes_moved = 0; /* the splits fall in the picture data, after FRAME */
    bool ok = true;
    try {
      auto a = r.get_next_frame(); mc::require( a.initialized(), "a picture is missing" ); same_picture( a.get().get(), p, "first picture" );
      splits = 0; max_chunk = 1 + i % 3;
      auto b = r.get_next_frame(); mc::require( b.initialized(), "a picture is missing" ); same_picture( b.get().get(), p, "second picture" );
      mc::require( not r.get_next_frame().initialized(), "a picture after the end" );
    } catch ( ... ) { calm(); throw; }
    calm(); mc::transition( 2 );
  }, 256 );
  mc::run( "streams cut at any byte", 6 * 3 * 700, []( uint64_t i ) {
    static const vector<pair<int, int>> CUT = { { 2, 2 }, { 3, 3 }, { 5, 4 }, { 1, 1 }, { 16, 8 }, { 7, 17 } };
    mc::Digits d( i ); const auto s = CUT[ d( 6 ) ]; const int piece = d( 3 ); const size_t n = d( 700 );
    const Pic p = picture( s.first, s.second, 9 ), q = picture( s.first, s.second, 10 );
    const string head = header_text( s.first, s.second ), all = head + frame_bytes( p ) + frame_bytes( q );
    if ( n > all.size() ) return;
    mc::describe( fmt( "%dx%d stream cut to %zu of %zu bytes", s.first, s.second, n, all.size() ) );
    mc::isolated( [&] {
      calm(); Mem f( all.substr( 0, n ) ); int fd = dup( f.fd ); watched = fd; max_chunk = piece;
      unique_ptr<YUV4MPEGReader> r;
      if ( n < head.size() ) {
        bool refused = false; try { r.reset( new YUV4MPEGReader( FileDescriptor( fd ) ) ); } catch ( const std::exception & ) { refused = true; }
        mc::require( refused, "a header cut short is accepted" ); return;
      }
      r.reset( new YUV4MPEGReader( FileDescriptor( fd ) ) );
      const size_t fl = frame_bytes( p ).size(), whole = ( n - head.size() ) / fl; const bool clean = ( n - head.size() ) % fl == 0;
      for ( size_t k = 0; k < whole; k++ ) { auto x = r->get_next_frame(); mc::require( x.initialized(), "a whole picture is not returned" ); same_picture( x.get().get(), k ? q : p, "picture" ); mc::transition(); }
      bool refused = false, end = false;
      try { end = not r->get_next_frame().initialized(); } catch ( const std::exception & ) { refused = true; }
      mc::require( clean ? end : refused, clean ? "the end of the stream is not recognised" : end ? "a picture cut short is taken for the end of the stream" : "a picture cut short is returned" );
    } );
  }, 16 );
  /* stream headers: every product of parameters from an alphabet, every order of three, every cut, every byte replaced */
  static const vector<string> TOK = { "W16", "W1", "W65535", "W65536", "W65552", "W4294967312", "W-16", "W16x", "W", "W0", "W+5", "W 5", "W0016", "H16", "H48", "H65537", "H-1", "H", "H9 ", "H0x10",
    "F30:1", "F30000:1001", "F90000:3003", "F65536:1", "F4294967295:4294967295", "F4294967296:1", "F30", "F:", "F1:", "F:1", "F-1:1", "F30:1:1", "F0:0", "F1.5:1", "Ip", "It", "Ib", "Im", "I", "I?", "Ipx", "Ixp", "A1:1",
    "A0:0", "A128:117", "A1", "A1:-1", "A70000:70001", "C420", "C420jpeg", "C420paldv", "C420mpeg2", "C420p10", "C420p16", "C422", "C444", "C411", "C", "Cmono", "C42", "XYSCSS=420", "X", "XW5", "Q", "w16", "YUV4MPEG2", "FRAME" };
  const int T = TOK.size();
  mc::run( "stream headers, three parameters", (uint64_t) T * T * T, []( uint64_t i ) {
    const int T = TOK.size(); mc::Digits d( i ); const int a = d( T ), b = d( T ), c = d( T );
    const string line = "YUV4MPEG2 " + TOK[ a ] + " " + TOK[ b ] + " " + TOK[ c ];
    mc::describe( line ); judge_header( line );
    const string more = "YUV4MPEG2 W20 H30 " + TOK[ a ] + " " + TOK[ b ] + " " + TOK[ c ]; mc::describe( more ); judge_header( more );
  }, 256 );
  mc::run( "stream headers, cut and changed", 60 * 260, []( uint64_t i ) {
    mc::Digits d( i ); const size_t at = d( 60 ); const int v = d( 260 ); string s = "YUV4MPEG2 W176 H144 F30000:1001 Ip A128:117 C420jpeg X";
    if ( v >= 257 ) return;
    if ( v == 256 ) { if ( at <= s.size() ) { mc::describe( fmt( "header cut to %zu", at ) ); judge_header( s.substr( 0, at ) ); judge_header( s.substr( 0, at ), false ); } return; }
    if ( v == '\n' or v == 0 ) return;
    if ( at >= s.size() ) return;
    s[ at ] = v; mc::describe( "header " + s ); judge_header( s );
  }, 64 );
  mc::run( "separators and magic", 8 * 6, []( uint64_t i ) {
    static const char * magic[] = { "YUV4MPEG2", "YUV4MPEG", "YUV4MPEG22", "yuv4mpeg2", "", "FRAME", "YUV4MPEG2W16", "RIFF" }; static const char * sep[] = { " ", "  ", "\t", " \r", "", "," };
    const string line = string( magic[ i % 8 ] ) + sep[ i / 8 ] + "W16" + ( i / 8 == 5 ? " " : sep[ i / 8 ] ) + "H8";
    mc::describe( line ); judge_header( line );
  } );
  mc::run( "frame headers", 14, []( uint64_t i ) {
    static const char * fh[] = { "FRAME", "FRAM", "FRAMES", "frame", "", " FRAME", "FRAME ", "FRAME Ip", "FRAME X", "YUV4MPEG2", "F", "FRAME\r", "FRAMEX", "GRAME" };
    mc::describe( string( "frame header " ) + fh[ i ] );
    const Pic p = picture( 4, 4, 1 ); Mem f( header_text( 4, 4 ) + fh[ i ] + "\n" + p.y + p.u + p.v );
    YUV4MPEGReader r( FileDescriptor( dup( f.fd ) ) ); bool refused = false;
    try { auto x = r.get_next_frame(); mc::require( x.initialized(), "taken for the end" ); same_picture( x.get().get(), p, "picture" ); }
    catch ( const mc::Violation & ) { throw; } catch ( const std::exception & ) { refused = true; }
    const string h = fh[ i ]; const bool spec = h == "FRAME" or h.compare( 0, 6, "FRAME " ) == 0; /* parameters: understood or refused */
    mc::require( i != 0 or not refused, "a picture is refused" );
    mc::require( spec or refused, "a malformed frame header is accepted" );
    mc::transition();
  } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  cerr.setstate( ios::badbit );
  if ( mc::prop == "P16" ) p16(); else if ( mc::prop == "P21" ) p21(); else return 2;
  return mc::finish( { { "IVF files opened", mc::S->counters[ 0 ] }, { "IVF files refused", mc::S->counters[ 1 ] },
                       { "stream headers accepted", mc::S->counters[ 2 ] }, { "stream headers refused", mc::S->counters[ 3 ] } } );
}
