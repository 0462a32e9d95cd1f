/* P18: pictures taken from a capture device. The real Camera and JPEG code run against a device that is a file in
   memory and an ioctl of our own: the explorer decides which buffer the driver fills and hands over, with what, and
   overwrites every buffer as soon as it belongs to the driver again. Oracle: what the driver wrote, reduced to 4:2:0 by
   a few lines of our own; JPEG pictures are decoded by libjpeg in one go, by a decompressor of our own. */
#include "mc.hh"
#include <cstdio>
#include <cstdarg>
#include <array>
#include <dlfcn.h>
#include <jpeglib.h>
#include <setjmp.h>
#include <linux/videodev2.h>
#include <memory>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include "camera.hh"
#include "raster_handle.hh"
using namespace std;
using mc::fmt;
typedef vector<uint8_t> Bytes;

enum Format { NV12, YUYV, YU12, MJPG };
static const char * const NAMES[] = { "NV12", "YUYV", "YU12", "MJPG" };

/* ---- pictures ---- */
struct Plane { unsigned w, h; Bytes p; Plane( unsigned w_ = 0, unsigned h_ = 0 ) : w( w_ ), h( h_ ), p( w_ * h_ ) {} uint8_t & at( unsigned x, unsigned y ) { return p.at( y * w + x ); } uint8_t at( unsigned x, unsigned y ) const { return p.at( y * w + x ); } };
struct Pic { unsigned w = 0, h = 0; Plane y, u, v; };   /* 4:2:0 */
static uint8_t sample( unsigned id, int plane, unsigned x, unsigned y )
{
  switch ( id % 4 ) {
    case 0: return mc::mix( mc::mix( id, plane ), ( uint64_t( x ) << 20 ) + y );            /* noise: every position is different */
    case 1: return 3 * x + 5 * y + 41 * plane + 17 * id;                                       /* slopes */
    case 2: return ( ( x / 3 + y / 2 + id ) & 1 ) ? 255 - plane : plane;                        /* extremes */
    default: return 16 + 60 * plane + id;                                                        /* flat */
  }
}
/* the planes of what the device sees: full luma, chroma of every second column and of every row */
struct Scene { Plane y, u, v; };
static Scene scene( unsigned id, unsigned w, unsigned h )
{
  Scene s; s.y = Plane( w, h ); s.u = Plane( ( w + 1 ) / 2, h ); s.v = Plane( ( w + 1 ) / 2, h );
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) s.y.at( x, y ) = sample( id, 0, x, y );
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < s.u.w; x++ ) { s.u.at( x, y ) = sample( id, 1, x, y ); s.v.at( x, y ) = sample( id, 2, x, y ); }
  return s;
}
/* what the encoder is to get: the chroma of the even rows */
static Pic reduced( const Scene & s )
{
  Pic p; p.w = s.y.w; p.h = s.y.h; p.y = s.y; p.u = p.v = Plane( s.u.w, ( p.h + 1 ) / 2 );
  for ( unsigned y = 0; y < p.u.h; y++ ) for ( unsigned x = 0; x < p.u.w; x++ ) { p.u.at( x, y ) = s.u.at( x, 2 * y ); p.v.at( x, y ) = s.v.at( x, 2 * y ); }
  return p;
}

/* ---- JPEG, with our own use of the library ---- */
struct Jerr { jpeg_error_mgr m; jmp_buf j; };
static void jfail( j_common_ptr c ) { longjmp( reinterpret_cast<Jerr *>( c->err )->j, 1 ); }
static void jquiet( j_common_ptr, int ) {}
struct JpegKind { int quality; int hs[ 3 ], vs[ 3 ]; J_COLOR_SPACE space; bool optimize, progressive; int restart; bool tables; };
static const JpegKind GOOD[] = {
  { 90, { 2, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 0, true },
  { 100, { 2, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, true, false, 0, true },
  { 40, { 2, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 1, true },
  { 90, { 2, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, true, true, 0, true },
};
static const JpegKind BAD[] = {
  { 90, { 2, 1, 1 }, { 2, 1, 1 }, JCS_YCbCr, false, false, 0, true },      /* 4:2:0 */
  { 90, { 1, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 0, true },      /* 4:4:4 */
  { 90, { 2, 2, 1 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 0, true },
  { 90, { 2, 1, 2 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 0, true },
  { 90, { 2, 1, 1 }, { 2, 2, 2 }, JCS_YCbCr, false, false, 0, true },
  { 90, { 2, 1, 1 }, { 2, 1, 2 }, JCS_YCbCr, false, false, 0, true },
  { 90, { 4, 1, 1 }, { 1, 1, 1 }, JCS_YCbCr, false, false, 0, true },
  { 90, { 1, 1, 1 }, { 1, 1, 1 }, JCS_GRAYSCALE, false, false, 0, true },
  { 90, { 2, 1, 1 }, { 1, 1, 1 }, JCS_RGB, false, false, 0, true },
  { 90, { 2, 1, 1 }, { 1, 1, 1 }, JCS_CMYK, false, false, 0, true },
  { 90, { 2, 1, 1 }, { 1, 1, 1 }, JCS_YCCK, false, false, 0, true },
};
static Bytes jpeg( unsigned id, unsigned w, unsigned h, const JpegKind & k )
{
  jpeg_compress_struct c; Jerr e; c.err = jpeg_std_error( &e.m ); e.m.error_exit = jfail;
  unsigned char * buf = nullptr; unsigned long n = 0;
  if ( setjmp( e.j ) ) { fprintf( stderr, "cannot make the JPEG pictures\n" ); _exit( 2 ); }
  jpeg_create_compress( &c ); jpeg_mem_dest( &c, &buf, &n );
  c.image_width = w; c.image_height = h;
  const bool four = k.space == JCS_CMYK or k.space == JCS_YCCK, one = k.space == JCS_GRAYSCALE;
  c.input_components = four ? 4 : one ? 1 : 3; c.in_color_space = four ? JCS_CMYK : one ? JCS_GRAYSCALE : k.space;
  jpeg_set_defaults( &c ); jpeg_set_colorspace( &c, k.space ); jpeg_set_quality( &c, k.quality, true );
  for ( int i = 0; i < c.num_components; i++ ) { c.comp_info[ i ].h_samp_factor = k.hs[ min( i, 2 ) ]; c.comp_info[ i ].v_samp_factor = k.vs[ min( i, 2 ) ]; }
  c.optimize_coding = k.optimize; if ( k.progressive ) jpeg_simple_progression( &c ); c.restart_interval = k.restart;
  jpeg_start_compress( &c, true );
  while ( c.next_scanline < h ) {
    Bytes row; for ( unsigned x = 0; x < w; x++ ) for ( int i = 0; i < c.input_components; i++ ) row.push_back( id % 4 == 0 ? sample( 1 + 4 * id, i, x, c.next_scanline ) ^ ( sample( id, i, x, c.next_scanline ) & 15 ) : sample( id, i, x / ( i ? 2 : 1 ), c.next_scanline ) );
    JSAMPROW r = row.data(); jpeg_write_scanlines( &c, &r, 1 );
  }
  jpeg_finish_compress( &c );
  Bytes b( buf, buf + n ); jpeg_destroy_compress( &c ); free( buf ); return b;
}
/* the frame without its Huffman tables, as many cameras send it */
static Bytes without_tables( const Bytes & b )
{
  Bytes r( b.begin(), b.begin() + 2 ); size_t o = 2;
  while ( o + 4 <= b.size() and b[ o ] == 0xff and b[ o + 1 ] != 0xda ) { const size_t l = 2 + b[ o + 2 ] * 256 + b[ o + 3 ]; if ( b[ o + 1 ] != 0xc4 ) r.insert( r.end(), b.begin() + o, b.begin() + o + l ); o += l; }
  r.insert( r.end(), b.begin() + o, b.end() ); return r;
}
static Scene unjpeg( const Bytes & b )
{
  jpeg_decompress_struct c; Jerr e; c.err = jpeg_std_error( &e.m ); e.m.error_exit = jfail; e.m.emit_message = jquiet;
  if ( setjmp( e.j ) ) { fprintf( stderr, "cannot decode the JPEG pictures\n" ); _exit( 2 ); }
  jpeg_create_decompress( &c ); jpeg_mem_src( &c, const_cast<uint8_t *>( b.data() ), b.size() ); jpeg_read_header( &c, true );
  c.raw_data_out = true; jpeg_start_decompress( &c );
  const unsigned w = c.image_width, h = c.image_height, aw = ( w + 15 ) / 16 * 16, ah = ( h + 7 ) / 8 * 8;
  Plane p[ 3 ] = { Plane( aw, ah ), Plane( aw / 2, ah ), Plane( aw / 2, ah ) };
  for ( unsigned y = 0; y < ah; y += 8 ) {
    JSAMPROW rows[ 3 ][ 8 ]; JSAMPARRAY a[ 3 ] = { rows[ 0 ], rows[ 1 ], rows[ 2 ] };
    for ( int i = 0; i < 3; i++ ) for ( int k = 0; k < 8; k++ ) rows[ i ][ k ] = &p[ i ].p[ ( y + k ) * p[ i ].w ];
    if ( jpeg_read_raw_data( &c, a, 8 ) != 8 ) _exit( 2 );
  }
  jpeg_destroy_decompress( &c );
  Scene s; s.y = Plane( w, h ); s.u = Plane( ( w + 1 ) / 2, h ); s.v = s.u;
  for ( unsigned y = 0; y < h; y++ ) { for ( unsigned x = 0; x < w; x++ ) s.y.at( x, y ) = p[ 0 ].at( x, y ); for ( unsigned x = 0; x < s.u.w; x++ ) { s.u.at( x, y ) = p[ 1 ].at( x, y ); s.v.at( x, y ) = p[ 2 ].at( x, y ); } }
  return s;
}

/* what the device writes into a buffer */
static Bytes wire( Format f, const Scene & s )
{
  Bytes b; const unsigned w = s.y.w, h = s.y.h; const Pic p = reduced( s );
  auto put = [&]( const Plane & q ) { b.insert( b.end(), q.p.begin(), q.p.end() ); };
  if ( f == YU12 ) { put( p.y ); put( p.u ); put( p.v ); }
  else if ( f == NV12 ) { put( p.y ); for ( size_t k = 0; k < p.u.p.size(); k++ ) { b.push_back( p.u.p[ k ] ); b.push_back( p.v.p[ k ] ); } }
  else for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x += 2 ) { b.push_back( s.y.at( x, y ) ); b.push_back( s.u.at( x / 2, y ) ); b.push_back( s.y.at( x + 1, y ) ); b.push_back( s.v.at( x / 2, y ) ); }
  return b;
}

/* ---- the device ---- */
struct Quirks { bool no_capture = false; int dw = 0, dh = 0; uint32_t other_format = 0; int fewer = 0; };
struct Device {
  enum : unsigned { MAX = 8 };
  int fd; size_t length; uint8_t * mem; Quirks q; unsigned count = 0; bool streaming = false, opened = false;
  bool queued[ MAX ] {}; unsigned n_queued = 0, handed_over = 0;
  vector<pair<unsigned, Bytes>> script; size_t at = 0;      /* which buffer is filled next (of those queued), and with what */
  Device( size_t len, Quirks quirks = {} ) : length( ( len + 4095 ) / 4096 * 4096 + 4096 ), q( quirks )
  {
    fd = syscall( SYS_memfd_create, "camera", 0 );
    if ( fd < 0 or ftruncate( fd, length * MAX ) ) { perror( "memfd" ); _exit( 2 ); }
    mem = static_cast<uint8_t *>( mmap( nullptr, length * MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) ); if ( mem == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
  }
  ~Device() { munmap( mem, length * MAX ); close( fd ); }
  string path() const { return "/proc/self/fd/" + to_string( fd ); }
  /* a buffer that belongs to the driver has no contents yet: values that no later picture has at this place */
  void scribble( unsigned i ) { for ( size_t k = 0; k < length; k++ ) mem[ i * length + k ] = ~mem[ i * length + k ] ^ ( k * 7 + at ); }
  static Device * it;
  int control( unsigned long request, void * a )
  {
    switch ( request ) {
    case VIDIOC_QUERYCAP: static_cast<v4l2_capability *>( a )->capabilities = q.no_capture ? V4L2_CAP_VIDEO_OUTPUT : V4L2_CAP_VIDEO_CAPTURE | V4L2_CAP_STREAMING; return 0;
    case VIDIOC_S_FMT: { auto & f = static_cast<v4l2_format *>( a )->fmt.pix; f.width += q.dw; f.height += q.dh; if ( q.other_format ) f.pixelformat = q.other_format; return 0; }
    case VIDIOC_REQBUFS: { auto r = static_cast<v4l2_requestbuffers *>( a ); r->count = count = min<unsigned>( r->count, MAX ) - q.fewer; return 0; }
    case VIDIOC_QUERYBUF: { auto b = static_cast<v4l2_buffer *>( a ); if ( b->index >= count ) { errno = EINVAL; return -1; } b->length = length; b->m.offset = b->index * length; return 0; }
    case VIDIOC_QBUF: {
      auto b = static_cast<v4l2_buffer *>( a );
      mc::require( b->index < count, fmt( "a buffer %u that does not exist is given to the driver", b->index ) );
      if ( queued[ b->index ] ) { errno = EINVAL; return -1; }
      queued[ b->index ] = true; n_queued++; scribble( b->index ); mc::transition();
      return 0;
    }
    case VIDIOC_DQBUF: {
      auto b = static_cast<v4l2_buffer *>( a );
      if ( not streaming or at >= script.size() ) mc::fail( streaming ? "more pictures are taken from the driver than were asked for" : "a picture is taken from a device that does not run" );
      if ( n_queued == 0 ) mc::fail( "all buffers are in use: the device can deliver no more pictures" );
      unsigned pick = script[ at ].first % n_queued, i = 0;
      for ( ; i < count; i++ ) if ( queued[ i ] and pick-- == 0 ) break;
      const Bytes & c = script[ at ].second; at++;
      mc::require( c.size() <= length, "harness: picture too large" );
      if ( c.size() ) memcpy( mem + i * length, c.data(), c.size() );
      queued[ i ] = false; n_queued--; b->index = i; b->bytesused = c.size(); b->length = length; b->m.offset = i * length; mc::transition();
      return 0;
    }
    case VIDIOC_STREAMON: streaming = true; return 0;
    case VIDIOC_STREAMOFF: streaming = false; return 0;
    }
    errno = ENOTTY; return -1;
  }
};
Device * Device::it = nullptr;
/* the only device there is */
extern "C" int ioctl( int fd, unsigned long request, ... ) noexcept( false );
extern "C" int ioctl( int fd, unsigned long request, ... ) noexcept( false )
{
  va_list v; va_start( v, request ); void * a = va_arg( v, void * ); va_end( v );
  if ( Device::it and ( ( request >> 8 ) & 0xff ) == 'V' ) return Device::it->control( request, a );
  return syscall( SYS_ioctl, fd, request, a );
}
struct Plugged { Device & d; explicit Plugged( Device & dev ) : d( dev ) { Device::it = &d; } ~Plugged() { Device::it = nullptr; } };

static string compare( const BaseRaster & r, const Pic & p, bool padding = true )
{
  if ( r.display_width() != p.w or r.display_height() != p.h ) return fmt( "it is %ux%u instead of %ux%u", r.display_width(), r.display_height(), p.w, p.h );
  const TwoD<uint8_t> * got[ 3 ] = { &r.Y(), &r.U(), &r.V() }; const Plane * want[ 3 ] = { &p.y, &p.u, &p.v };
  for ( int k = 0; k < 3; k++ ) for ( unsigned y = 0; y < ( padding ? got[ k ]->height() : want[ k ]->h ); y++ ) for ( unsigned x = 0; x < ( padding ? got[ k ]->width() : want[ k ]->w ); x++ ) {
    const uint8_t g = got[ k ]->at( x, y ), e = want[ k ]->at( min( x, want[ k ]->w - 1 ), min( y, want[ k ]->h - 1 ) );
    if ( g != e ) return fmt( "%s at (%u,%u)%s is %u instead of %u", k == 0 ? "luma" : k == 1 ? "Cb" : "Cr", x, y, x < want[ k ]->w and y < want[ k ]->h ? "" : " (beyond the edge)", g, e );
  }
  return "";
}
static uint64_t digest( const BaseRaster & r ) { uint64_t h = 1; for ( auto q : { &r.Y(), &r.U(), &r.V() } ) h = mc::hash_bytes( &q->at( 0, 0 ), size_t( q->width() ) * q->height(), h ); return h; }

/* a picture on the wire, and what is to arrive; nothing arrives of a refused one */
struct Shot { string name; Bytes bytes; bool good; Pic pic; };
static Shot shot( Format f, unsigned id, unsigned w, unsigned h, unsigned kind = 0 )
{
  Shot s; s.good = true; s.name = fmt( "picture %u", id );
  if ( f == MJPG ) {
    const unsigned n = sizeof( GOOD ) / sizeof( *GOOD );
    s.bytes = jpeg( id, w, h, GOOD[ kind % ( n + 1 ) % n ] ); if ( kind % ( n + 1 ) == n ) s.bytes = without_tables( s.bytes );
    s.pic = reduced( unjpeg( s.bytes ) );
  } else { const Scene sc = scene( id, w, h ); s.bytes = wire( f, sc ); s.pic = reduced( sc ); }
  return s;
}

/* runs a camera over the pictures; picks: which of the buffers that the driver has comes next */
static void session( Format f, unsigned w, unsigned h, const vector<pair<unsigned, Shot>> & shots, bool may_decode_bad = false, size_t room = 0 )
{
  size_t len = max( size_t( w ) * h * 2, room ); for ( auto & s : shots ) len = max( len, s.second.bytes.size() );
  Device dev( len ); Plugged in( dev ); RasterPoolDebug::allow_resize = true;
  /* what a JPEG device delivers first is not used */
  const Bytes rubbish( 100, 0xd8 ); if ( f == MJPG ) dev.script.emplace_back( shots.at( 0 ).first, rubbish );
  for ( auto & s : shots ) dev.script.emplace_back( s.first, s.second.bytes );
  vector<pair<RasterHandle, size_t>> taken;
  {
    Camera camera( w, h, PIXEL_FORMAT_STRS.at( NAMES[ f ] ), dev.path() );
    mc::require( dev.streaming, "the device was not started" );
    mc::require( camera.display_width() == w and camera.display_height() == h, "the camera reports another size" );
    for ( size_t k = 0; k < shots.size(); k++ ) {
      const Shot & s = shots[ k ].second; const unsigned before = dev.n_queued; const size_t at = dev.at;
      Optional<RasterHandle> r; string refused;
      try { r = camera.get_next_frame(); }
      catch ( const mc::Violation & ) { throw; }
      catch ( const exception & e ) { refused = e.what(); if ( refused.empty() ) refused = "?"; }
      const size_t used = dev.at - at, expected = 1 + ( f == MJPG and k == 0 );
      mc::require( used == expected, s.name + fmt( ": %zu pictures were taken from the driver", used ) );
      mc::require( dev.n_queued == before, s.name + fmt( ": the driver has %u buffers afterwards and had %u before", dev.n_queued, before ) );
      if ( refused.empty() ) mc::require( r.initialized(), s.name + ": nothing is returned" );
      if ( s.good ) {
        mc::require( refused.empty(), s.name + ": refused: " + refused );
        const string d = compare( r.get(), s.pic ); mc::require( d.empty(), s.name + fmt( " (number %zu): ", k ) + d );
        taken.emplace_back( r.get(), k );
      } else if ( refused.empty() ) {
        mc::require( may_decode_bad, s.name + ": was not refused" );
        const BaseRaster & b = r.get(); mc::require( b.display_width() == w and b.display_height() == h, s.name + ": a picture of another size" );
      }
      mc::state( mc::mix( mc::hash_bytes( dev.queued, sizeof dev.queued, f ), r.initialized() ? digest( r.get() ) : 7 ) );
      for ( auto & t : taken ) { const string d = compare( t.first, shots[ t.second ].second.pic ); mc::require( d.empty(), fmt( "picture number %zu has changed after number %zu was taken: ", t.second, k ) + d ); }
    }
  }
  mc::require( not dev.streaming, "the device still runs after the camera is gone" );
  for ( auto & t : taken ) { const string d = compare( t.first, shots[ t.second ].second.pic ); mc::require( d.empty(), fmt( "picture number %zu has changed after the camera is gone: ", t.second ) + d ); }
}

static vector<unsigned> evens( unsigned to ) { vector<unsigned> v; for ( unsigned k = 2; k <= to; k += 2 ) v.push_back( k ); return v; }

static void sizes()
{
  struct Size { unsigned w, h; }; static vector<Size> all; const unsigned most = mc::only == "safety" ? 34 : mc::thorough() ? 66 : 50;
  for ( unsigned w : evens( most ) ) for ( unsigned h : evens( most ) ) all.push_back( { w, h } );
  if ( mc::only == "safety" ) all.push_back( { 640, 360 } );
  else for ( Size s : { Size { 1280, 720 }, { 640, 480 }, { 640, 360 }, { 1920, 1080 }, { 800, 600 }, { 176, 144 }, { 854, 480 }, { 2, 1024 }, { 1024, 2 }, { 4096, 16 }, { 16, 4096 } } ) all.push_back( s );
  const unsigned contents = mc::thorough() ? 10 : 5;
  mc::run( "every size, every format", all.size() * 4 * contents, [&]( uint64_t i ) {
    mc::Digits d( i ); const unsigned c = d( contents ); const Format f = Format( d( 4 ) ); const Size s = all[ d( all.size() ) ];
    mc::describe( fmt( "%s, %ux%u, contents %u", NAMES[ f ], s.w, s.h, c ) );
    session( f, s.w, s.h, { { c, shot( f, c, s.w, s.h, c ) }, { c + 1, shot( f, c + 1, s.w, s.h, c ) } } );
    if ( i % 977 == 0 ) mc::sample( fmt( "%s, %ux%u: two pictures arrive unchanged", NAMES[ f ], s.w, s.h ) );
  }, 16 );
}

/* every order in which the driver may hand over its buffers */
static void orders()
{
  const unsigned depth = mc::thorough() ? 7 : 6; uint64_t n = 1; for ( unsigned k = 0; k < depth; k++ ) n *= 4;
  static vector<Shot> shots[ 4 ][ 2 ]; static const unsigned W[ 2 ] = { 16, 18 }, HH[ 2 ] = { 16, 10 };
  for ( int f = 0; f < 4; f++ ) for ( int s = 0; s < 2; s++ ) for ( unsigned k = 0; k < depth; k++ ) shots[ f ][ s ].push_back( shot( Format( f ), k, W[ s ], HH[ s ], 0 ) );
  mc::run( "every order of buffers", n * 8, [&]( uint64_t i ) {
    mc::Digits d( i ); const Format f = Format( d( 4 ) ); const int s = d( 2 ); vector<pair<unsigned, Shot>> v; string o;
    for ( unsigned k = 0; k < depth; k++ ) { const unsigned p = d( 4 ); v.emplace_back( p, shots[ f ][ s ][ k ] ); o += to_string( p ); }
    mc::describe( fmt( "%s, %ux%u, buffers %s", NAMES[ f ], W[ s ], HH[ s ], o.c_str() ) );
    session( f, W[ s ], HH[ s ], v );
    if ( i % 5003 == 0 ) mc::sample( fmt( "%s: buffers in the order %s", NAMES[ f ], o.c_str() ) );
  }, 64 );
}

/* sequences of good, refused, cut and damaged JPEG pictures */
static void mixed()
{
  static const unsigned W = 32, HH = 24; static vector<Shot> kinds;
  for ( unsigned k = 0; k < 5; k++ ) { Shot s = shot( MJPG, k, W, HH, k ); s.name = fmt( "good %u", k ); kinds.push_back( s ); }
  /* tables of their own stay with the decompressor, as libjpeg documents; a picture without any is only sent alone */
  kinds.pop_back();
  auto bad = [&]( const string & n, const Bytes & b, bool ok = false ) { Shot s; s.name = n; s.bytes = b; s.good = ok; kinds.push_back( s ); };
  for ( unsigned k = 0; k < sizeof( BAD ) / sizeof( *BAD ); k++ ) bad( fmt( "unsupported %u", k ), jpeg( 1, W, HH, BAD[ k ] ) );
  bad( "wider", jpeg( 1, W + 16, HH, GOOD[ 0 ] ) ); bad( "narrower", jpeg( 1, W - 16, HH, GOOD[ 0 ] ) ); bad( "higher", jpeg( 1, W, HH + 8, GOOD[ 0 ] ) ); bad( "lower", jpeg( 1, W, HH - 8, GOOD[ 0 ] ) );
  bad( "one column more", jpeg( 1, W + 1, HH, GOOD[ 0 ] ) ); bad( "one row more", jpeg( 1, W, HH + 1, GOOD[ 0 ] ) ); bad( "one column less", jpeg( 1, W - 1, HH, GOOD[ 0 ] ) ); bad( "one row less", jpeg( 1, W, HH - 1, GOOD[ 0 ] ) );
  bad( "transposed", jpeg( 1, HH, W, GOOD[ 0 ] ) ); bad( "huge", [&] { Bytes b = kinds[ 0 ].bytes; for ( size_t o = 0; o + 9 < b.size(); o++ ) if ( b[ o ] == 0xff and b[ o + 1 ] == 0xc0 ) { b[ o + 5 ] = b[ o + 7 ] = 0xff; break; } return b; }() );
  bad( "nothing", Bytes() ); bad( "one byte", Bytes( 1, 0xff ) ); bad( "rubbish", Bytes( 50, 0x55 ) );
  bad( "header only", Bytes( kinds[ 0 ].bytes.begin(), kinds[ 0 ].bytes.begin() + 40 ) );
  const unsigned n = kinds.size(), depth = mc::thorough() ? 4 : 3; uint64_t total = 4; for ( unsigned k = 0; k < depth; k++ ) total *= n;
  mc::run( "sequences with refused pictures", total, [=]( uint64_t i ) {
    mc::Digits d( i ); vector<pair<unsigned, Shot>> v; string o; const unsigned order = d( 4 );
    for ( unsigned k = 0; k < depth; k++ ) { v.emplace_back( k * order, kinds[ d( n ) ] ); o += v.back().second.name + ", "; }
    v.emplace_back( order, kinds[ 0 ] ); v.emplace_back( 0, kinds[ 3 ] );
    mc::describe( o + fmt( "then two good ones, order %u", order ) );
    session( MJPG, W, HH, v );
    if ( i % 20011 == 0 ) mc::sample( o + "then two good ones that arrive" );
  }, 64 );
}

/* every combination of sampling factors but the one that is supported */
static void samplings()
{
  mc::run( "every sampling", 64 * 3, [=]( uint64_t i ) {
    mc::Digits d( i ); JpegKind k = GOOD[ d( 3 ) ]; int blocks = 0; string o; bool odd = false;
    for ( int c = 0; c < 3; c++ ) { const int hs = 1 + d( 2 ), vs = 1 + d( 2 ); odd = odd or hs != k.hs[ c ] or vs != k.vs[ c ]; k.hs[ c ] = hs; k.vs[ c ] = vs; blocks += hs * vs; o += fmt( " %dx%d", hs, vs ); }
    mc::describe( "sampling factors" + o );
    if ( blocks > 10 ) return;      /* not a valid JPEG picture */
    const Shot good = shot( MJPG, 1, 32, 24, 0 ); Shot s; s.name = "sampling factors" + o; s.good = not odd; s.bytes = jpeg( 2, 32, 24, k ); if ( s.good ) s.pic = reduced( unjpeg( s.bytes ) );
    session( MJPG, 32, 24, { { 0, s }, { 1, good }, { 2, s }, { 0, s }, { 0, good } } );
  }, 4 );
}

/* one byte replaced or the end cut off */
static void damage()
{
  struct Base { unsigned w, h; Shot s; }; static vector<Base> bases; static vector<uint64_t> offsets; uint64_t total = 0;
  for ( auto & z : vector<array<unsigned, 4>> { { 16, 8, 0, 1 }, { 18, 10, 2, 1 }, { 16, 8, 3, 1 } } ) { bases.push_back( { z[ 0 ], z[ 1 ], shot( MJPG, z[ 3 ], z[ 0 ], z[ 1 ], z[ 2 ] ) } ); offsets.push_back( total ); total += bases.back().s.bytes.size(); }
  static vector<int> values; values.clear(); values.push_back( -1 );
  if ( mc::thorough() ) for ( int v = 1; v < 256; v++ ) values.push_back( v ); else for ( int v : { 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x11, 0x03, 0x30, 0x41, 0x7f, 0x0f, 0xf0 } ) values.push_back( v );
  const unsigned nv = values.size();
  mc::run( "one byte damaged, or cut", total * nv, [=]( uint64_t i ) {
    mc::Digits d( i ); const int v = values[ d( nv ) ]; uint64_t pos = d( total ); size_t b = bases.size() - 1; while ( offsets[ b ] > pos ) b--; pos -= offsets[ b ];
    const Base & base = bases[ b ]; Shot s = base.s; s.good = false; s.name = "damaged picture";
    if ( v < 0 ) s.bytes.resize( pos ); else s.bytes[ pos ] ^= v;
    mc::describe( v < 0 ? fmt( "%ux%u, cut to %lu bytes", base.w, base.h, pos ) : fmt( "%ux%u, byte %lu changed by %02x", base.w, base.h, pos, v ) );
    session( MJPG, base.w, base.h, { { 0, base.s }, { 1, s }, { 2, base.s } }, true );
    session( MJPG, base.w, base.h, { { 0, s }, { 1, base.s } }, true );
    if ( i % 9001 == 0 ) mc::sample( fmt( "damage of byte %lu: refused or decoded, and the next picture arrives", pos ) );
  }, 16 );
}

/* pairs of bytes of the header's sizes, sampling factors and table choices */
static void headers()
{
  static Shot base = shot( MJPG, 1, 16, 8, 0 ); size_t o = 0; while ( base.bytes.at( o ) != 0xff or base.bytes.at( o + 1 ) != 0xc0 ) o++;
  static const uint8_t values[] = { 0, 1, 2, 3, 4, 8, 0x10, 0x11, 0x12, 0x21, 0x22, 0x41, 0x7f, 0x80, 0xff };
  const unsigned n = 19, nv = sizeof( values ); const size_t sof = o;
  mc::run( "two header bytes damaged", uint64_t( n ) * n * nv * nv, [=]( uint64_t i ) {
    mc::Digits d( i ); const unsigned a = d( n ), b = d( n ); const uint8_t va = values[ d( nv ) ], vb = values[ d( nv ) ];
    if ( a >= b and not ( a == b and va == vb ) ) return;
    Shot s = base; s.good = false; s.name = "damaged picture"; s.bytes[ sof + a ] = va; s.bytes[ sof + b ] = vb;
    mc::describe( fmt( "16x8, header bytes %u = %02x, %u = %02x", a, va, b, vb ) );
    if ( s.bytes == base.bytes ) s.good = true;
    session( MJPG, 16, 8, { { 0, s }, { 1, base } }, true );
  }, 64 );
}

/* devices that cannot do what is asked are refused */
static void refusals()
{
  static const uint32_t FORMATS[] = { V4L2_PIX_FMT_NV12, V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_MJPEG, V4L2_PIX_FMT_UYVY, V4L2_PIX_FMT_NV21, V4L2_PIX_FMT_YVU420, V4L2_PIX_FMT_JPEG, 0 };
  mc::run( "devices that cannot deliver it", 9 * 10 * 3 * 3 * 5 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const uint32_t asked = FORMATS[ d( 9 ) ]; const unsigned g = d( 10 ); Quirks q; q.other_format = g == 9 ? 0 : FORMATS[ g ]; q.dw = int( d( 3 ) ) - 1; q.dh = int( d( 3 ) ) - 1; q.fewer = int( d( 5 ) ); q.no_capture = d( 2 );
    mc::describe( fmt( "format %08x asked, %08x given, size %+d %+d, %d buffers fewer, %s", asked, q.other_format, q.dw, q.dh, q.fewer, q.no_capture ? "not a camera" : "camera" ) );
    const bool supported = asked == FORMATS[ 0 ] or asked == FORMATS[ 1 ] or asked == FORMATS[ 2 ] or asked == FORMATS[ 3 ];
    const bool good = supported and ( q.other_format == 0 or q.other_format == asked ) and not q.dw and not q.dh and not q.fewer and not q.no_capture;
    Device dev( 16 * 16 * 2, q ); Plugged in( dev ); bool refused = false;
    try { Camera camera( 16, 16, asked, dev.path() ); mc::require( dev.streaming and dev.n_queued == 4, "the device was not started with all its buffers" ); } catch ( const mc::Violation & ) { throw; } catch ( const exception & ) { refused = true; }
    mc::require( refused != good, good ? "a device that can deliver it is refused" : "a device that cannot deliver it is used" );
    mc::state( mc::mix( refused, i % 90 ) );
  }, 64 );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  sizes();
  if ( mc::only != "safety" ) { orders(); mixed(); samplings(); refusals(); }
  if ( mc::only != "values" ) { damage(); headers(); }
  return mc::finish();
}
