/* What the camera of the sender under exploration sees. */
#ifndef CAMERA_WORLD_HH
#define CAMERA_WORLD_HH
#include "encpics.hh"
#include <fcntl.h>
static int PW = 48, PH = 48;
/* ---- camera ---- */
static std::atomic<int> camera_calls { 0 };
static int camera_kind = 0;
static RasterHandle camera_picture( int i )
{
  if ( camera_kind == 1 ) i = i / 2;              /* every picture twice */
  if ( camera_kind == 2 ) i = 0;                  /* a still scene */
  MutableRasterHandle m( PW, PH ); VP8Raster & r = m.get();
  auto px = [&]( int plane, unsigned x, unsigned y ) {
    uint32_t h = ( x * 1103515245u ) ^ ( y * 2654435761u ) ^ ( plane * 97u + 11u ) ^ ( i * 40503u * 977u ); h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; h *= 0x27d4eb2du; h ^= h >> 13;
    if ( camera_kind == 3 ) return int( 24 + h % 208 );    /* noise all over: several datagrams a frame */
    return ( ( x / 16 + y / 16 + i ) % 3 == 0 ) ? tex( x + 3 * i, y + i, plane ) : int( 64 + ( h & 127 ) );
  };
  for ( unsigned y = 0; y < r.height(); y++ ) for ( unsigned x = 0; x < r.width(); x++ ) r.Y().at( x, y ) = px( 0, x, y );
  for ( unsigned y = 0; y < r.height() / 2; y++ ) for ( unsigned x = 0; x < r.width() / 2; x++ ) { r.U().at( x, y ) = px( 1, x, y ); r.V().at( x, y ) = px( 2, x, y ); }
  return RasterHandle( std::move( m ) );
}
Optional<RasterHandle> world_camera_frame() { return make_optional( true, camera_picture( camera_calls++ ) ); }
uint16_t world_camera_width() { return PW; }
uint16_t world_camera_height() { return PH; }
int world_camera_fd() { return open( "/dev/null", O_RDONLY ); }
#endif
