/* Input pictures and encoding operations for the encoder checks. */
#ifndef ENCPICS_HH
#define ENCPICS_HH
#include "alf.hh"
#include "encoder.hh"

typedef std::vector<uint8_t> Bytes;

/* a smooth deterministic texture that is not periodic within a picture */
inline int tex( int x, int y, int p )
{
  const int a = ( x * x / 7 + y * 5 + x * y / 11 + p * 31 ) & 127;
  const int b = ( ( x / 3 ) * 17 + ( y / 4 ) * 29 + p * 13 ) & 63;
  return 40 + ( ( a < 64 ? a : 127 - a ) + b );
}
static const int N_PICS = 16;
inline const char * pic_name( int k )
{
  static const char * n[ N_PICS ] = { "texture", "texture moved (3,2)", "texture moved (-9,5)", "texture moved (40,-24)", "texture half-pixel", "grey", "white/black checker",
    "noise", "black", "gradient", "texture with one new block", "white", "quiet texture", "stripes", "texture moved (16,16) right half only", "dark noise" };
  return n[ k ];
}
inline int pixel( int k, int plane, int x, int y )
{
  const int s = plane ? 2 : 1; /* chroma moves at half speed */
  uint32_t r = ( x * 1103515245u ) ^ ( y * 2654435761u ) ^ ( plane * 97u + 11u ); r ^= r >> 13; r *= 0x5bd1e995u; r ^= r >> 15;
  switch ( k ) {
  case 0: return tex( x + 100, y + 100, plane );
  case 1: return tex( x + 100 + 4 / s, y + 100 + 2 / s, plane );
  case 2: return tex( x + 100 - 8 / s, y + 100 + 6 / s, plane );
  case 3: return tex( x + 100 + 40 / s, y + 100 - 24 / s, plane );
  case 4: return ( tex( x + 100, y + 100, plane ) + tex( x + 101, y + 100, plane ) + 1 ) / 2;
  case 5: return 128;
  case 6: return ( ( x / ( 8 / s ) + y / ( 8 / s ) ) & 1 ) ? 255 : 0;
  case 7: return r & 255;
  case 8: return 0;
  case 9: return std::min( 255, 4 * x + 3 * y );
  case 10: return ( x / ( 16 / s ) == 1 and y / ( 16 / s ) == 0 ) ? int( r & 255 ) : tex( x + 100, y + 100, plane );
  case 11: return 255;
  case 12: return 100 + tex( x + 100, y + 100, plane ) / 16;
  case 13: return ( x & 1 ) ? 235 : 16;
  case 14: return tex( x + 100 + ( x >= 16 / s ? 16 / s : 0 ), y + 100 + ( x >= 16 / s ? 16 / s : 0 ), plane );
  default: return r & 15;
  }
}
inline RasterHandle input( int k, int w, int h )
{
  MutableRasterHandle m( w, h ); VP8Raster & r = m.get();
  for ( unsigned y = 0; y < r.height(); y++ ) for ( unsigned x = 0; x < r.width(); x++ ) r.Y().at( x, y ) = pixel( k, 0, x, y );
  for ( unsigned y = 0; y < r.height() / 2; y++ ) for ( unsigned x = 0; x < r.width() / 2; x++ ) { r.U().at( x, y ) = pixel( k, 1, x, y ); r.V().at( x, y ) = pixel( k, 2, x, y ); }
  return RasterHandle( std::move( m ) );
}

struct Mode { char kind; int v; };  /* q: quantizer, s: target size, m: minimum ssim in thousandths */
inline std::string mode_name( const Mode & m ) { return m.kind == 'q' ? mc::fmt( "q%d", m.v ) : m.kind == 's' ? mc::fmt( "size%d", m.v ) : mc::fmt( "ssim%d", m.v ); }
inline Bytes encode( Encoder & e, const VP8Raster & r, const Mode & m )
{
  if ( m.kind == 'q' ) return e.encode_with_quantizer( r, m.v );
  if ( m.kind == 's' ) return e.encode_with_target_size( r, m.v );
  return e.encode_with_minimum_ssim( r, m.v / 1000.0 );
}
inline uint64_t refs_digest( const References & r )
{
  return mc::mix( raster_digest( r.last ), mc::mix( raster_digest( r.golden ), raster_digest( r.alternative ) ) );
}
#endif
