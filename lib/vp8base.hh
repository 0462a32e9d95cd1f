/* Richly textured base frames and frame sequences from which executions deviate. */
#ifndef VP8BASE_HH
#define VP8BASE_HH
#include "vp8gen.hh"

namespace vp8 {

/* fill a block's levels with texture; kept small enough that no dequantized value overflows 16 bits */
inline void texture_block( std::array<int16_t, 16> & c, Lcg & r, int first, int amp, int n )
{
  for ( int i = 0; i < n; i++ ) { int p = first + r( 16 - first ); c[ p ] = int( r( 2 * amp + 1 ) ) - amp; }
}
inline void texture_mb( MB & m, Lcg & r, bool y2, int amp, int density = 3 )
{
  for ( auto & b : m.c ) b.fill( 0 );
  if ( y2 ) { texture_block( m.c[ 24 ], r, 0, amp * 2, 4 ); m.c[ 24 ][ 0 ] = int( r( 8 * amp + 1 ) ) - 4 * amp; }
  for ( int b = 0; b < 16; b++ ) {
    if ( r( 3 ) ) texture_block( m.c[ b ], r, y2 ? 1 : 0, amp, 1 + r( density ) );
    if ( not y2 ) m.c[ b ][ 0 ] = int( r( 6 * amp + 1 ) ) - 3 * amp;
  }
  for ( int b = 16; b < 24; b++ ) if ( r( 3 ) ) { texture_block( m.c[ b ], r, 0, amp, 1 + r( density ) ); m.c[ b ][ 0 ] += int( r( 4 * amp + 1 ) ) - 2 * amp; }
}

inline Frame noisy_key( int w, int h, uint64_t seed, int amp = 4 )
{
  Lcg r( seed );
  Frame f; f.key = true; f.w = w; f.h = h; f.q = 24 + r( 20 ); f.level = 10 + r( 20 ); f.sharp = r( 4 );
  f.mb.resize( f.mbw() * f.mbh() );
  int n = 0;
  for ( auto & m : f.mb ) {
    m.ymode = ( n++ + r( 2 ) ) % 5; m.uvmode = r( 4 );
    for ( auto & b : m.bmodes ) b = r( 10 );
    m.segment = r( 4 );
    texture_mb( m, r, m.ymode != B, amp );
    m.skip = r( 8 ) == 0;
    if ( m.skip ) for ( auto & b : m.c ) b.fill( 0 );
  }
  return f;
}

inline int16_t some_mv( Lcg & r )
{
  switch ( r( 6 ) ) {
  case 0: return int( r( 3 ) ) - 1;
  case 1: case 2: return int( r( 15 ) ) - 7;
  case 3: return int( r( 61 ) ) - 30;
  case 4: return int( r( 201 ) ) - 100;
  default: return int( r( 5 ) ) * 4 - 8;
  }
}

inline void noisy_inter_mb( MB & m, Lcg & r, int amp )
{
  m = MB();
  m.ref = r( 6 ) ? 1 + r( 3 ) : 0;
  m.ymode = r( 5 ); m.uvmode = r( 4 );
  for ( auto & b : m.bmodes ) b = r( 10 );
  m.mvmode = r( 5 ); m.split = r( 4 );
  m.delta.row = some_mv( r ); m.delta.col = some_mv( r );
  for ( int i = 0; i < 16; i++ ) { m.sub[ i ] = r( 4 ); m.subdelta[ i ].row = some_mv( r ); m.subdelta[ i ].col = some_mv( r ); }
  m.segment = r( 4 );
  if ( amp ) texture_mb( m, r, m.has_y2(), amp, 2 );
  m.skip = amp == 0 or r( 4 ) == 0;
  if ( m.skip ) for ( auto & b : m.c ) b.fill( 0 );
}

inline Frame noisy_inter( int w, int h, uint64_t seed, int amp = 2 )
{
  Lcg r( seed + 77 );
  Frame f; f.key = false; f.w = w; f.h = h; f.q = 10 + r( 30 ); f.level = 8 + r( 20 ); f.sharp = r( 3 );
  f.mb.resize( f.mbw() * f.mbh() );
  for ( auto & m : f.mb ) noisy_inter_mb( m, r, amp );
  return f;
}

/* an inter frame in which every macroblock shows one reference, unmodified and unfiltered */
inline Frame probe( int w, int h, int ref )
{
  Frame f; f.key = false; f.w = w; f.h = h; f.q = 10; f.level = 0; f.refresh_last = false;
  f.mb.resize( f.mbw() * f.mbh() );
  for ( auto & m : f.mb ) { m.ref = ref; m.mvmode = ZERO; m.skip = true; }
  return f;
}

}
#endif
