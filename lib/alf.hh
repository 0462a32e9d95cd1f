/* Helpers over the public interface of the code under test. */
#ifndef ALF_HH
#define ALF_HH
#include "mc.hh"
#include "vpxref.hh"
#include "vp8base.hh"
#include "chunk.hh"
#include "decoder.hh"
#include "exception.hh"
#include "optional.hh"
#include "raster_handle.hh"

inline Picture picture( const VP8Raster & r )
{
  Picture p; p.w = r.display_width(); p.h = r.display_height();
  auto copy = []( const TwoD<uint8_t> & t, unsigned w, unsigned h ) { std::vector<uint8_t> o( w * h ); for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) o[ y * w + x ] = t.at( x, y ); return o; };
  p.y = copy( r.Y(), p.w, p.h );
  p.u = copy( r.U(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 );
  p.v = copy( r.V(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 );
  return p;
}
/* all the pixels of a raster, those outside the displayed rectangle included */
inline uint64_t raster_digest( const BaseRaster & r )
{
  uint64_t h = mc::mix( r.width(), r.height() );
  auto add = [&]( const TwoD<uint8_t> & t, unsigned w, unsigned hh ) { for ( unsigned y = 0; y < hh; y++ ) h = mc::hash_bytes( &t.at( 0, y ), w, h ); };
  add( r.Y(), r.width(), r.height() ); add( r.U(), r.width() / 2, r.height() / 2 ); add( r.V(), r.width() / 2, r.height() / 2 );
  return h;
}
inline std::string picture_diff( const Picture & a, const Picture & b )
{
  if ( a.w != b.w or a.h != b.h ) return mc::fmt( "sizes %ux%u and %ux%u", a.w, a.h, b.w, b.h );
  size_t n = 0; std::string first;
  auto cmp = [&]( const std::vector<uint8_t> & x, const std::vector<uint8_t> & y, unsigned w, const char * name ) {
    for ( size_t i = 0; i < x.size(); i++ ) if ( x[ i ] != y[ i ] ) { if ( n++ == 0 ) first = mc::fmt( "%s(%zu,%zu) %d, expected %d", name, i % w, i / w, x[ i ], y[ i ] ); }
  };
  cmp( a.y, b.y, a.w, "Y" ); cmp( a.u, b.u, ( a.w + 1 ) / 2, "U" ); cmp( a.v, b.v, ( a.w + 1 ) / 2, "V" );
  return n ? mc::fmt( "%zu pixels differ, first %s", n, first.c_str() ) : "";
}
/* for replays: the stream of an execution as an IVF file */
inline void dump_ivf( const char * name, const std::vector<std::vector<uint8_t>> & frames, unsigned w, unsigned h )
{
  FILE * f = fopen( name, "wb" ); if ( not f ) return;
  auto le = [&]( uint64_t v, int n ) { while ( n-- ) { fputc( v & 255, f ); v >>= 8; } };
  fwrite( "DKIF", 1, 4, f ); le( 0, 2 ); le( 32, 2 ); fwrite( "VP80", 1, 4, f ); le( w, 2 ); le( h, 2 ); le( 24, 4 ); le( 1, 4 ); le( frames.size(), 4 ); le( 0, 4 );
  uint64_t pts = 0;
  for ( auto & x : frames ) { le( x.size(), 4 ); le( pts++, 8 ); fwrite( x.data(), 1, x.size(), f ); }
  fclose( f );
}
inline uint64_t picture_digest( const Picture & p )
{
  return mc::hash_bytes( p.v.data(), p.v.size(), mc::hash_bytes( p.u.data(), p.u.size(), mc::hash_bytes( p.y.data(), p.y.size(), p.w * 65536 + p.h ) ) );
}
#endif
