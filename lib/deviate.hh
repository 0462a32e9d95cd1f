/* Every alternative value of every syntax element of a frame: the executions one deviation away. */
#ifndef DEVIATE_HH
#define DEVIATE_HH
#include "vp8base.hh"

namespace vp8 {

struct Dev { std::string name; std::function<void( Frame & )> apply; };
using Devs = std::vector<Dev>;

inline std::string nm( const char * n, int a, int b = -9999, int c = -9999, int d = -9999 )
{
  std::string s = n; for ( int x : { a, b, c, d } ) if ( x != -9999 ) s += "," + std::to_string( x ); return s;
}

/* header elements; step thins large numeric domains (1 = every value) */
inline void header_devs( Devs & o, const Frame & f, int step )
{
  auto add = [&]( std::string n, std::function<void( Frame & )> g ) { o.push_back( { n, g } ); };
  for ( int v = 0; v < 64; v++ ) add( nm( "level", v ), [=]( Frame & x ) { x.level = v; } );
  for ( int v = 0; v < 8; v++ ) for ( int l : { 1, 4, 9, 16, 24, 40, 63 } ) add( nm( "sharp,level", v, l ), [=]( Frame & x ) { x.sharp = v; x.level = l; } );
  for ( int v = 0; v < 128; v++ ) add( nm( "q", v ), [=]( Frame & x ) { x.q = v; } );
  for ( int i = 0; i < 5; i++ ) for ( int v = -15; v <= 15; v++ ) for ( int q : { -1, 0, 7, 117, 127 } )
    add( nm( "qdelta", i, v, q ), [=]( Frame & x ) { x.qd[ i ] = OptI( v ); if ( q >= 0 ) x.q = q; } );
  for ( int v = 0; v < 4; v++ ) add( nm( "log2parts", v ), [=]( Frame & x ) { x.log2parts = v; } );
  add( "no refresh_entropy", []( Frame & x ) { x.refresh_entropy = false; } );
  add( "hidden", []( Frame & x ) { x.show = false; } );
  for ( int v = 0; v < 256; v += step ) add( nm( "prob_skip", v ), [=]( Frame & x ) { x.prob_skip = v; } );
  add( "no skipping", []( Frame & x ) { x.skip_enabled = false; } );
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) for ( int l = 0; l < 11; l++ )
    for ( int v : { 1, 255 } ) for ( int re = 0; re < 2; re++ ) {
      if ( ( v == 255 ) != ( re == 1 ) and step > 1 ) continue;
      add( nm( "coef_prob", i * 1000 + j * 100 + k * 20 + l, v, re ), [=]( Frame & x ) { x.coef.push_back( { uint8_t( i ), uint8_t( j ), uint8_t( k ), uint8_t( l ), uint8_t( v ) } ); x.refresh_entropy = re; } );
    }
  /* segmentation: on, with every combination of absent tree probabilities, and extreme adjustments */
  auto seg_on = []( Frame & x ) { x.seg = true; x.seg_map = true; x.seg_data = true; x.seg_abs = false; for ( int i = 0; i < 4; i++ ) { x.seg_q[ i ] = OptI( i * 5 - 7 ); x.seg_lf[ i ] = OptI( 6 - i * 4 ); } for ( int i = 0; i < 3; i++ ) x.seg_prob[ i ] = OptI( 100 + 30 * i ); };
  for ( int v = 0; v < 8; v++ ) add( nm( "segments, tree probs", v ), [=]( Frame & x ) { seg_on( x ); for ( int i = 0; i < 3; i++ ) if ( v >> i & 1 ) x.seg_prob[ i ] = OptI(); } );
  for ( int i = 0; i < 3; i++ ) for ( int v = 0; v < 256; v += step ) add( nm( "segment tree prob", i, v ), [=]( Frame & x ) { seg_on( x ); x.seg_prob[ i ] = OptI( v ); } );
  for ( int i = 0; i < 4; i++ ) for ( int ab = 0; ab < 2; ab++ ) {
    for ( int v = ab ? 0 : -127; v <= 127; v += ( v % 16 == 0 or step == 1 ) ? 1 : step ) add( nm( "segment q", i, ab, v ), [=]( Frame & x ) { seg_on( x ); x.seg_abs = ab; if ( ab ) for ( int k = 0; k < 4; k++ ) { x.seg_q[ k ].v = 20 + 9 * k; x.seg_lf[ k ].v = 10 + 9 * k; } x.seg_q[ i ] = OptI( v ); } );
    for ( int v = ab ? 0 : -63; v <= 63; v++ ) add( nm( "segment lf", i, ab, v ), [=]( Frame & x ) { seg_on( x ); x.seg_abs = ab; if ( ab ) for ( int k = 0; k < 4; k++ ) { x.seg_q[ k ].v = 20 + 9 * k; x.seg_lf[ k ].v = 10 + 9 * k; } x.seg_lf[ i ] = OptI( v ); } );
    add( nm( "segment q absent", i, ab ), [=]( Frame & x ) { seg_on( x ); x.seg_abs = ab; if ( ab ) for ( int k = 0; k < 4; k++ ) { x.seg_q[ k ].v = 20 + 9 * k; x.seg_lf[ k ].v = 10 + 9 * k; } x.seg_q[ i ] = OptI(); } );
    add( nm( "segment lf absent", i, ab ), [=]( Frame & x ) { seg_on( x ); x.seg_abs = ab; if ( ab ) for ( int k = 0; k < 4; k++ ) { x.seg_q[ k ].v = 20 + 9 * k; x.seg_lf[ k ].v = 10 + 9 * k; } x.seg_lf[ i ] = OptI(); } );
  }
  /* loop-filter adjustments */
  auto lf_on = []( Frame & x ) { x.lf_delta = x.lf_delta_update = true; for ( int i = 0; i < 4; i++ ) { x.lf_ref[ i ] = OptI( 4 - 3 * i ); x.lf_mode[ i ] = OptI( 2 * i - 5 ); } };
  add( "lf deltas on, not updated", []( Frame & x ) { x.lf_delta = true; } );
  for ( int i = 0; i < 8; i++ ) {
    for ( int v = -63; v <= 63; v++ ) add( nm( "lf delta", i, v ), [=]( Frame & x ) { lf_on( x ); ( i < 4 ? x.lf_ref[ i ] : x.lf_mode[ i - 4 ] ) = OptI( v ); } );
    add( nm( "lf delta absent", i ), [=]( Frame & x ) { lf_on( x ); ( i < 4 ? x.lf_ref[ i ] : x.lf_mode[ i - 4 ] ) = OptI(); } );
  }
  for ( int v : { -63, 63 } ) for ( int l : { 1, 30, 63 } ) for ( int b : { -63, 63 } ) add( nm( "lf extreme", v, l, b ), [=]( Frame & x ) { lf_on( x ); seg_on( x ); x.level = l; for ( int i = 0; i < 4; i++ ) { x.lf_ref[ i ] = OptI( v ); x.lf_mode[ i ] = OptI( v ); x.seg_lf[ i ] = OptI( b ); } } );
  if ( f.key ) return;
  for ( int i = 0; i < 32; i++ ) for ( int s = 0; s < 4; s++ )
    add( nm( "reference updates", i, s ), [=]( Frame & x ) {
      int g = i % 4, a = i / 4 % 4; x.refresh_last = i / 16; x.refresh_golden = g == 3; x.copy_golden = g % 3; x.refresh_alt = a == 3; x.copy_alt = a % 3; x.sign_golden = s & 1; x.sign_alt = s >> 1; } );
  for ( int v = 0; v < 256; v += step ) {
    add( nm( "prob_intra", v ), [=]( Frame & x ) { x.prob_intra = v; } );
    add( nm( "prob_last", v ), [=]( Frame & x ) { x.prob_last = v; } );
    add( nm( "prob_golden", v ), [=]( Frame & x ) { x.prob_golden = v; } );
  }
  for ( int i = 0; i < 7; i++ ) for ( int v = 0; v < 256; v += 15 ) for ( int re = 0; re < 2; re++ )
    add( nm( "mode_prob", i, v, re ), [=]( Frame & x ) { if ( i < 4 ) { x.y_prob_update = true; x.y_prob[ i ] = v; } else { x.uv_prob_update = true; x.uv_prob[ i - 4 ] = v; } x.refresh_entropy = re; } );
  for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) for ( int v : { 0, 1, 40, 127 } ) for ( int re = 0; re < 2; re++ )
    add( nm( "mv_prob", i, j, v, re ), [=]( Frame & x ) { x.mv_prob[ i ][ j ] = OptI( v ); x.refresh_entropy = re; } );
}

/* prediction modes and motion vectors of macroblock n */
inline void mode_devs( Devs & o, const Frame & f, int n, int mvstep )
{
  auto add = [&]( std::string nme, std::function<void( MB & )> g ) { o.push_back( { "mb" + std::to_string( n ) + " " + nme, [=]( Frame & x ) { g( x.mb[ n ] ); } } ); };
  for ( int v = 0; v < 4; v++ ) add( nm( "segment", v ), [=]( MB & m ) { m.segment = v; } );
  for ( int v = 0; v < 2; v++ ) add( nm( "skip", v ), [=]( MB & m ) { m.skip = v; } );
  for ( int y = 0; y < 5; y++ ) for ( int u = 0; u < 4; u++ ) add( nm( "intra", y, u ), [=]( MB & m ) { m.ref = 0; m.ymode = y; m.uvmode = u; } );
  for ( int b = 0; b < 16; b++ ) for ( int v = 0; v < 10; v++ ) add( nm( "bmode", b, v ), [=]( MB & m ) { m.ref = 0; m.ymode = B; m.bmodes[ b ] = v; } );
  if ( f.key ) return;
  for ( int r = 1; r < 4; r++ ) for ( int v = 0; v < 4; v++ ) add( nm( "inter", r, v ), [=]( MB & m ) { m.ref = r; m.mvmode = v; } );
  for ( int r = 1; r < 4; r++ ) for ( int s = 0; s < 4; s++ ) add( nm( "split", r, s ), [=]( MB & m ) { m.ref = r; m.mvmode = SPLIT; m.split = s; } );
  for ( int s = 0; s < 4; s++ ) for ( int p = 0; p < split_parts[ s ]; p++ ) for ( int v = 0; v < 4; v++ )
    add( nm( "submv", s, p, v ), [=]( MB & m ) { m.ref = m.ref ? m.ref : 1; m.mvmode = SPLIT; m.split = s; m.sub[ p ] = v; } );
  /* whole-block vectors: every component value in the codable range, thinned away from zero */
  auto values = [&]( int step ) { std::vector<int> v; for ( int x = -1023; x <= 1023; x += ( std::abs( x ) <= 40 ? 1 : step ) ) v.push_back( x ); for ( int x : { 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023 } ) { v.push_back( x ); v.push_back( -x ); } std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); return v; };
  for ( int x : values( mvstep ) ) {
    add( nm( "mv row", x ), [=]( MB & m ) { m.ref = 1; m.mvmode = NEW; m.delta.row = x; } );
    add( nm( "mv col", x ), [=]( MB & m ) { m.ref = 1; m.mvmode = NEW; m.delta.col = x; } );
  }
  /* every fractional position */
  for ( int y = -8; y < 8; y++ ) for ( int x = -8; x < 8; x++ ) {
    add( nm( "mv frac", y, x ), [=]( MB & m ) { m.ref = 2; m.mvmode = NEW; m.delta.row = y; m.delta.col = x; } );
    for ( int s = 0; s < 4; s++ ) {
      if ( mvstep > 1 and ( x + y + s ) % 4 ) continue;
      add( nm( "split frac", s, y, x ), [=]( MB & m ) { m.ref = 1; m.mvmode = SPLIT; m.split = s; for ( int p = 0; p < 16; p++ ) { m.sub[ p ] = NEW4; m.subdelta[ p ].row = y + p % 5; m.subdelta[ p ].col = x - p % 3; } } );
    }
  }
  for ( int s = 0; s < 4; s++ ) for ( int p = 0; p < split_parts[ s ]; p++ ) for ( int x : { -1023, -400, -121, -70, -33, -9, -5, -3, -2, -1, 1, 2, 3, 6, 11, 38, 75, 122, 333, 1023 } ) {
    add( nm( "submv row", s, p, x ), [=]( MB & m ) { m.ref = m.ref ? m.ref : 1; m.mvmode = SPLIT; m.split = s; m.sub[ p ] = NEW4; m.subdelta[ p ].row = x; } );
    add( nm( "submv col", s, p, x ), [=]( MB & m ) { m.ref = m.ref ? m.ref : 1; m.mvmode = SPLIT; m.split = s; m.sub[ p ] = NEW4; m.subdelta[ p ].col = x; } );
  }
}

/* levels of macroblock n */
/* whether the frame's largest dequantized coefficient is one that a transform of a picture can come near (the transforms'
   results are only defined up to 16 bits; genuine coefficients stay below 2^14) */
inline bool tame( const Frame & f )
{
  int q = f.q;
  if ( f.seg ) for ( auto & s : f.seg_q ) if ( s.on ) q = std::max( q, f.seg_abs ? s.v : f.q + s.v );
  int d = 0; for ( auto & x : f.qd ) if ( x.on ) d = std::max( d, x.v );
  q = std::min( 127, q + d );
  const int factor = std::max( 8, ( q < 55 ? q + 4 : q < 100 ? 170 : 284 ) * 155 / 100 );
  for ( auto & m : f.mb ) if ( not m.skip ) for ( auto & b : m.c ) for ( int v : b ) if ( std::abs( v ) * factor > 17000 ) return false;
  return true;
}

inline void coef_devs( Devs & o, int n, bool all )
{
  static const int vals[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, 6, -7, 10, -11, 18, 19, -34, 35, 66, -67, 68, -130 };
  for ( int b = 0; b < 25; b++ ) for ( int i = 0; i < 16; i++ ) for ( int v : vals ) {
    if ( not all and ( b * 7 + i * 3 + v + 200 ) % 3 ) continue;
    o.push_back( { "mb" + std::to_string( n ) + nm( " coef", b, i, v ), [=]( Frame & x ) { x.mb[ n ].skip = false; x.mb[ n ].c[ b ][ i ] = v; } } );
  }
  /* large levels, at a fine quantizer */
  for ( int b : { 0, 5, 16, 20, 24 } ) for ( int i : { 0, 1, 7, 15 } ) for ( int v : { 200, -515, 1000, -2048, 2047, 2048 + 66 } )
    o.push_back( { "mb" + std::to_string( n ) + nm( " big coef", b, i, v ), [=]( Frame & x ) { x.q = 0; x.mb[ n ].skip = false; x.mb[ n ].c[ b ][ i ] = v; } } );
  /* sparse macroblocks: only one coefficient (dc-only and eob shortcuts) */
  for ( int b = 0; b < 25; b++ ) for ( int i = 0; i < 16; i++ ) for ( int v : { 1, -3, 40 } ) {
    if ( not all and i > 2 and i < 15 ) continue;
    o.push_back( { "mb" + std::to_string( n ) + nm( " only coef", b, i, v ), [=]( Frame & x ) { x.mb[ n ].skip = false; for ( auto & c : x.mb[ n ].c ) c.fill( 0 ); x.mb[ n ].c[ b ][ i ] = v; } } );
  }
  o.push_back( { "mb" + std::to_string( n ) + " no coefs, not skipped", [=]( Frame & x ) { x.mb[ n ].skip = false; for ( auto & c : x.mb[ n ].c ) c.fill( 0 ); } } );
}

}
#endif
