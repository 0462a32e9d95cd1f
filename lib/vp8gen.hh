/* A generator of VP8 (RFC 6386, profile 0) frames in which every syntax element is chosen explicitly.
   Independent of the code under test (own arithmetic coder, contexts and tables). */
#ifndef VP8GEN_HH
#define VP8GEN_HH
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include "vp8tables.hh"

namespace vp8 {

struct BoolEnc {
  std::vector<uint8_t> out;
  uint32_t range = 255, bottom = 0;
  int bit_count = 24;
  void add_one() { size_t i = out.size(); while ( i > 0 and out[ i - 1 ] == 255 ) out[ --i ] = 0; if ( i > 0 ) out[ i - 1 ]++; }
  void put( bool b, uint8_t prob )
  {
    const uint32_t split = 1 + ( ( ( range - 1 ) * prob ) >> 8 );
    if ( b ) { uint32_t nb = bottom + split; if ( nb < bottom ) add_one(); bottom = nb; range -= split; } else range = split;
    while ( range < 128 ) {
      range <<= 1;
      if ( bottom & ( 1u << 31 ) ) add_one();
      bottom <<= 1;
      if ( --bit_count == 0 ) { out.push_back( bottom >> 24 ); bottom &= ( 1u << 24 ) - 1; bit_count = 8; }
    }
  }
  void bit( bool b ) { put( b, 128 ); }
  void lit( uint32_t v, int n ) { while ( n-- > 0 ) bit( ( v >> n ) & 1 ); }
  void sgn( int v, int n ) { lit( std::abs( v ), n ); bit( v < 0 ); }
  void flag_sgn( int v, bool present, int n ) { bit( present ); if ( present ) sgn( v, n ); }
  uint64_t shifts() const { return out.empty() ? 24 - bit_count : 24 + ( out.size() - 1 ) * 8 + ( 8 - bit_count ); }
  std::vector<uint8_t> finish() { for ( int i = 0; i < 32; i++ ) put( false, 128 ); return out; }
};

/* writes the path to leaf -value */
inline bool tree_path( const int8_t * tree, int node, int value, uint32_t & bits, int & n, int * nodes )
{
  for ( int b = 0; b < 2; b++ ) {
    const int m = n; nodes[ n ] = node; bits = ( bits & ~( 1u << n ) ) | ( uint32_t( b ) << n ); n++;
    const int t = tree[ node + b ];
    if ( t <= 0 ? -t == value : tree_path( tree, t, value, bits, n, nodes ) ) return true;
    n = m;
  }
  return false;
}
inline void put_tree( BoolEnc & e, const int8_t * tree, const uint8_t * probs, int value )
{
  uint32_t bits = 0; int n = 0, nodes[ 16 ];
  if ( not tree_path( tree, 0, value, bits, n, nodes ) ) throw std::logic_error( "tree" );
  for ( int i = 0; i < n; i++ ) e.put( ( bits >> i ) & 1, probs[ nodes[ i ] >> 1 ] );
}

enum { DC = 0, V = 1, H = 2, TM = 3, B = 4 };
enum { BDC, BTM, BVE, BHE, BLD, BRD, BVR, BVL, BHD, BHU };
enum { NEAREST = 0, NEAR = 1, ZERO = 2, NEW = 3, SPLIT = 4 };
enum { LEFT4 = 0, ABOVE4 = 1, ZERO4 = 2, NEW4 = 3 };

static const int8_t t_kfy[] = { -B, 2, 4, 6, -DC, -V, -H, -TM };
static const int8_t t_y[] = { -DC, 2, 4, 6, -V, -H, -TM, -B };
static const int8_t t_uv[] = { -DC, 2, -V, 4, -H, -TM };
static const int8_t t_b[] = { -BDC, 2, -BTM, 4, -BVE, 6, 8, 12, -BHE, 10, -BRD, -BVR, -BLD, 14, -BVL, 16, -BHD, -BHU };
static const int8_t t_smallmv[] = { 2, 8, 4, 6, 0, -1, -2, -3, 10, 12, -4, -5, -6, -7 };
static const int8_t t_mvref[] = { -ZERO, 2, -NEAREST, 4, -NEAR, 6, -NEW, -SPLIT };
static const int8_t t_submv[] = { -LEFT4, 2, -ABOVE4, 4, -ZERO4, -NEW4 };
static const int8_t t_split[] = { -3, 2, -2, 4, 0, -1 };
static const int8_t t_seg[] = { 2, 4, 0, -1, -2, -3 };
static const uint8_t kf_y_probs[] = { 145, 156, 163, 128 }, kf_uv_probs[] = { 142, 114, 183 };
static const uint8_t b_probs[] = { 120, 90, 79, 133, 87, 85, 80, 111, 151 };
static const uint8_t split_probs[] = { 110, 111, 150 };
static const uint8_t mode_contexts[6][4] = { { 7, 1, 1, 143 }, { 14, 18, 14, 107 }, { 135, 64, 57, 68 }, { 60, 56, 128, 65 }, { 159, 134, 128, 34 }, { 234, 188, 128, 28 } };
static const uint8_t submv_probs[5][3] = { { 147, 136, 18 }, { 106, 145, 1 }, { 179, 121, 1 }, { 223, 1, 34 }, { 208, 1, 1 } };
static const uint8_t bands[16] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 };
static const uint8_t split_parts[4] = { 2, 2, 4, 16 };
static const uint8_t split_map[4][16] = { { 0,0,0,0, 0,0,0,0, 1,1,1,1, 1,1,1,1 }, { 0,0,1,1, 0,0,1,1, 0,0,1,1, 0,0,1,1 },
  { 0,0,1,1, 0,0,1,1, 2,2,3,3, 2,2,3,3 }, { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15 } };

struct MV { int16_t row = 0, col = 0; bool operator==( const MV & o ) const { return row == o.row and col == o.col; } bool zero() const { return row == 0 and col == 0; } };

struct MB {
  uint8_t segment = 0;
  bool skip = false;           /* only written when the frame enables skipping */
  uint8_t ref = 0;             /* 0 intra, 1 last, 2 golden, 3 altref (inter frames) */
  uint8_t ymode = DC, uvmode = DC;
  std::array<uint8_t, 16> bmodes {{}};
  uint8_t mvmode = ZERO;
  MV delta {};                 /* NEW: difference from best, in quarter pixels */
  uint8_t split = 0;
  std::array<uint8_t, 16> sub {{}};
  std::array<MV, 16> subdelta {{}};
  /* levels in scan order; 0..15 Y, 16..19 U, 20..23 V, 24 Y2 */
  std::array<std::array<int16_t, 16>, 25> c {{}};
  bool has_y2() const { return ref == 0 ? ymode != B : mvmode != SPLIT; }
};

struct OptI { bool on = false; int v = 0; OptI() {} OptI( int x ) : on( true ), v( x ) {} };

struct CoefUpd { uint8_t i, j, k, l, v; };

struct Frame {
  bool key = true, show = true;
  uint16_t w = 16, h = 16;
  uint8_t version = 0, hscale = 0, vscale = 0, color_space = 0, clamping = 0;
  bool seg = false, seg_map = false, seg_data = false, seg_abs = false;
  OptI seg_q[4], seg_lf[4], seg_prob[3];
  uint8_t filter_type = 0, level = 0, sharp = 0;
  bool lf_delta = false, lf_delta_update = false;
  OptI lf_ref[4], lf_mode[4];
  uint8_t log2parts = 0, q = 20;
  OptI qd[5];                  /* y1dc y2dc y2ac uvdc uvac */
  bool refresh_entropy = true;
  bool refresh_golden = false, refresh_alt = false, refresh_last = true;
  uint8_t copy_golden = 0, copy_alt = 0;
  bool sign_golden = false, sign_alt = false;
  std::vector<CoefUpd> coef;
  bool skip_enabled = true; uint8_t prob_skip = 128;
  uint8_t prob_intra = 128, prob_last = 128, prob_golden = 128;
  bool y_prob_update = false, uv_prob_update = false;
  uint8_t y_prob[4] = { 112, 86, 140, 37 }, uv_prob[3] = { 162, 101, 204 };
  OptI mv_prob[2][19];         /* 7-bit values */
  std::vector<MB> mb;
  int mbw() const { return ( w + 15 ) / 16; }
  int mbh() const { return ( h + 15 ) / 16; }
};

struct Probs { uint8_t coef[4][8][3][11], y[4], uv[3], mv[2][19]; };
inline Probs default_probs()
{
  Probs p; memcpy( p.coef, default_coef_probs, sizeof p.coef ); memcpy( p.y, default_y_probs, 4 );
  memcpy( p.uv, default_uv_probs, 3 ); memcpy( p.mv, default_mv_probs, sizeof p.mv ); return p;
}

struct MBInfo { int ref = 0; bool split = false; MV mv {}; MV bmv[16]; uint8_t bm[16] {}; };

struct Gen {                   /* what persists from frame to frame */
  std::vector<MBInfo> * census = nullptr; /* the macroblocks of the frame that was emitted last */
  std::vector<uint64_t> * where = nullptr; /* bits of the first partition before each macroblock, and in all */
  std::vector<uint64_t> * tokens_end = nullptr; /* bits of its token partition up to the end of each macroblock */
  Probs probs = default_probs();
};

inline void put_mv_component( BoolEnc & e, int v, const uint8_t * p )
{
  int x = std::abs( v );
  if ( x < 8 ) { e.put( false, p[ 0 ] ); put_tree( e, t_smallmv, p + 2, x ); }
  else {
    e.put( true, p[ 0 ] );
    for ( int i = 0; i < 3; i++ ) e.put( ( x >> i ) & 1, p[ 9 + i ] );
    for ( int i = 9; i > 3; i-- ) e.put( ( x >> i ) & 1, p[ 9 + i ] );
    if ( x & 0xfff0 ) e.put( ( x >> 3 ) & 1, p[ 9 + 3 ] );
  }
  if ( x ) e.put( v < 0, p[ 1 ] );
}
/* deltas are in the unit of the bitstream (quarter pixels) */
inline void put_mv( BoolEnc & e, const MV & d, const uint8_t p[2][19] ) { put_mv_component( e, d.row, p[ 0 ] ); put_mv_component( e, d.col, p[ 1 ] ); }

static const uint8_t cat_probs[6][12] = { { 159, 0 }, { 165, 145, 0 }, { 173, 148, 140, 0 }, { 176, 155, 140, 135, 0 },
  { 180, 157, 141, 134, 130, 0 }, { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129, 0 } };
static const int cat_base[6] = { 5, 7, 11, 19, 35, 67 };

/* returns whether the block has a nonzero coefficient */
inline bool put_block( BoolEnc & e, const std::array<int16_t, 16> & c, int type, int ctx, const Probs & P )
{
  int first = type == 0 ? 1 : 0, last = -1;
  for ( int i = first; i < 16; i++ ) if ( c[ i ] ) last = i;
  bool prev_zero = false;
  for ( int i = first; i < 16; i++ ) {
    const uint8_t * p = P.coef[ type ][ bands[ i ] ][ ctx ];
    if ( not prev_zero ) { if ( i > last ) { e.put( false, p[ 0 ] ); break; } e.put( true, p[ 0 ] ); }
    int v = std::abs( c[ i ] );
    if ( v == 0 ) { e.put( false, p[ 1 ] ); ctx = 0; prev_zero = true; continue; }
    prev_zero = false;
    e.put( true, p[ 1 ] );
    if ( v == 1 ) { e.put( false, p[ 2 ] ); ctx = 1; }
    else {
      ctx = 2; e.put( true, p[ 2 ] );
      if ( v <= 4 ) { e.put( false, p[ 3 ] ); if ( v == 2 ) e.put( false, p[ 4 ] ); else { e.put( true, p[ 4 ] ); e.put( v == 4, p[ 5 ] ); } }
      else {
        e.put( true, p[ 3 ] );
        int cat = 0; while ( cat < 5 and v >= cat_base[ cat + 1 ] ) cat++;
        if ( cat < 2 ) { e.put( false, p[ 6 ] ); e.put( cat == 1, p[ 7 ] ); }
        else { e.put( true, p[ 6 ] ); e.put( cat >= 4, p[ 8 ] ); e.put( ( cat & 1 ), p[ cat >= 4 ? 10 : 9 ] ); }
        int n = 0; while ( cat_probs[ cat ][ n ] ) n++;
        int extra = v - cat_base[ cat ];
        for ( int b = 0; b < n; b++ ) e.put( ( extra >> ( n - 1 - b ) ) & 1, cat_probs[ cat ][ b ] );
      }
    }
    e.bit( c[ i ] < 0 );
  }
  return last >= 0;
}

inline std::vector<uint8_t> emit( const Frame & f, Gen & g )
{
  BoolEnc e;
  if ( f.key ) g.probs = default_probs();
  Probs saved = g.probs;
  if ( f.key ) { e.bit( f.color_space ); e.bit( f.clamping ); }
  e.bit( f.seg );
  if ( f.seg ) {
    e.bit( f.seg_map ); e.bit( f.seg_data );
    if ( f.seg_data ) {
      e.bit( f.seg_abs );
      for ( auto & x : f.seg_q ) e.flag_sgn( x.v, x.on, 7 );
      for ( auto & x : f.seg_lf ) e.flag_sgn( x.v, x.on, 6 );
    }
    if ( f.seg_map ) for ( auto & x : f.seg_prob ) { e.bit( x.on ); if ( x.on ) e.lit( x.v, 8 ); }
  }
  e.bit( f.filter_type ); e.lit( f.level, 6 ); e.lit( f.sharp, 3 );
  e.bit( f.lf_delta );
  if ( f.lf_delta ) {
    e.bit( f.lf_delta_update );
    if ( f.lf_delta_update ) { for ( auto & x : f.lf_ref ) e.flag_sgn( x.v, x.on, 6 ); for ( auto & x : f.lf_mode ) e.flag_sgn( x.v, x.on, 6 ); }
  }
  e.lit( f.log2parts, 2 );
  e.lit( f.q, 7 );
  for ( auto & x : f.qd ) e.flag_sgn( x.v, x.on, 4 );
  if ( f.key ) e.bit( f.refresh_entropy );
  else {
    e.bit( f.refresh_golden ); e.bit( f.refresh_alt );
    if ( not f.refresh_golden ) e.lit( f.copy_golden, 2 );
    if ( not f.refresh_alt ) e.lit( f.copy_alt, 2 );
    e.bit( f.sign_golden ); e.bit( f.sign_alt );
    e.bit( f.refresh_entropy ); e.bit( f.refresh_last );
  }
  Probs & P = g.probs;
  for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) for ( int l = 0; l < 11; l++ ) {
    const CoefUpd * u = nullptr;
    if ( not f.coef.empty() ) for ( auto & x : f.coef ) if ( x.i == i and x.j == j and x.k == k and x.l == l ) u = &x;
    e.put( u != nullptr, coef_update_probs[ i ][ j ][ k ][ l ] );
    if ( u ) { e.lit( u->v, 8 ); P.coef[ i ][ j ][ k ][ l ] = u->v; }
  }
  e.bit( f.skip_enabled ); if ( f.skip_enabled ) e.lit( f.prob_skip, 8 );
  if ( not f.key ) {
    e.lit( f.prob_intra, 8 ); e.lit( f.prob_last, 8 ); e.lit( f.prob_golden, 8 );
    e.bit( f.y_prob_update ); if ( f.y_prob_update ) for ( int i = 0; i < 4; i++ ) { e.lit( f.y_prob[ i ], 8 ); P.y[ i ] = f.y_prob[ i ]; }
    e.bit( f.uv_prob_update ); if ( f.uv_prob_update ) for ( int i = 0; i < 3; i++ ) { e.lit( f.uv_prob[ i ], 8 ); P.uv[ i ] = f.uv_prob[ i ]; }
    for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) {
      e.put( f.mv_prob[ i ][ j ].on, mv_update_probs[ i ][ j ] );
      if ( f.mv_prob[ i ][ j ].on ) { int v = f.mv_prob[ i ][ j ].v; e.lit( v, 7 ); P.mv[ i ][ j ] = v ? v << 1 : 1; }
    }
  }

  const int W = f.mbw(), Hh = f.mbh();
  if ( int( f.mb.size() ) != W * Hh ) throw std::logic_error( "vp8gen: macroblocks" );
  std::vector<MBInfo> info( W * Hh );
  const uint8_t segp[3] = { uint8_t( f.seg_prob[ 0 ].on ? f.seg_prob[ 0 ].v : 255 ), uint8_t( f.seg_prob[ 1 ].on ? f.seg_prob[ 1 ].v : 255 ), uint8_t( f.seg_prob[ 2 ].on ? f.seg_prob[ 2 ].v : 255 ) };
  for ( int r = 0; r < Hh; r++ ) for ( int c = 0; c < W; c++ ) {
    const MB & m = f.mb[ r * W + c ];
    MBInfo & I = info[ r * W + c ];
    if ( g.where ) g.where->push_back( e.shifts() );
    if ( f.seg and f.seg_map ) put_tree( e, t_seg, segp, m.segment );
    if ( f.skip_enabled ) e.put( m.skip, f.prob_skip );
    static const uint8_t implied[] = { BDC, BVE, BHE, BTM };
    auto intra_bmodes = [&] { for ( int b = 0; b < 16; b++ ) I.bm[ b ] = m.ymode == B ? m.bmodes[ b ] : implied[ m.ymode ]; };
    if ( f.key ) {
      put_tree( e, t_kfy, kf_y_probs, m.ymode );
      intra_bmodes();
      if ( m.ymode == B ) for ( int b = 0; b < 16; b++ ) {
        int above = b >= 4 ? I.bm[ b - 4 ] : r ? info[ ( r - 1 ) * W + c ].bm[ b + 12 ] : int( BDC );
        int left = ( b & 3 ) ? I.bm[ b - 1 ] : c ? info[ r * W + c - 1 ].bm[ b + 3 ] : int( BDC );
        put_tree( e, t_b, kf_b_probs[ above ][ left ], m.bmodes[ b ] );
      }
      put_tree( e, t_uv, kf_uv_probs, m.uvmode );
      continue;
    }
    e.put( m.ref != 0, f.prob_intra );
    if ( m.ref == 0 ) {
      put_tree( e, t_y, P.y, m.ymode );
      intra_bmodes();
      if ( m.ymode == B ) for ( int b = 0; b < 16; b++ ) put_tree( e, t_b, b_probs, m.bmodes[ b ] );
      put_tree( e, t_uv, P.uv, m.uvmode );
      continue;
    }
    e.put( m.ref > 1, f.prob_last ); if ( m.ref > 1 ) e.put( m.ref == 3, f.prob_golden );
    I.ref = m.ref;
    /* nearby motion vectors */
    auto bias = [&]( int ref ) { return ref == 2 ? f.sign_golden : ref == 3 ? f.sign_alt : false; };
    const MBInfo none;
    const MBInfo & A = r ? info[ ( r - 1 ) * W + c ] : none, & L = c ? info[ r * W + c - 1 ] : none, & AL = r and c ? info[ ( r - 1 ) * W + c - 1 ] : none;
    MV near[3] {}; int cnt[4] = { 0, 0, 0, 0 }; int idx = 0;
    auto consider = [&]( const MBInfo & n, int weight ) {
      if ( n.ref == 0 ) return;
      if ( n.mv.zero() ) { cnt[ 0 ] += weight; return; }
      MV v = n.mv; if ( bias( n.ref ) != bias( m.ref ) ) { v.row = -v.row; v.col = -v.col; }
      if ( idx == 0 or not ( v == ( idx < 3 ? near[ idx ] : MV() ) ) ) { idx++; if ( idx < 3 ) near[ idx ] = v; cnt[ idx ] += weight; return; }
      cnt[ idx ] += weight;
    };
    /* near[3] is only ever compared with near[1]; keep it apart */
    MV third {};
    auto consider3 = [&]( const MBInfo & n, int weight ) {
      if ( n.ref and not n.mv.zero() and idx == 2 ) {
        MV v = n.mv; if ( bias( n.ref ) != bias( m.ref ) ) { v.row = -v.row; v.col = -v.col; }
        if ( not ( v == near[ 2 ] ) ) { third = v; idx = 3; cnt[ 3 ] += weight; return; }
      }
      consider( n, weight );
    };
    consider( A, 2 ); consider( L, 2 ); consider3( AL, 1 );
    if ( cnt[ 3 ] and third == near[ 1 ] ) cnt[ 1 ] += 1;
    cnt[ 3 ] = ( A.split + L.split ) * 2 + AL.split;
    if ( cnt[ 2 ] > cnt[ 1 ] ) { std::swap( cnt[ 1 ], cnt[ 2 ] ); std::swap( near[ 1 ], near[ 2 ] ); }
    if ( cnt[ 1 ] >= cnt[ 0 ] ) near[ 0 ] = near[ 1 ];
    auto clampmv = [&]( MV v ) {
      int tl = -c * 128 - 128, tr = ( W - 1 - c ) * 128 + 128, tt = -r * 128 - 128, tb = ( Hh - 1 - r ) * 128 + 128;
      v.col = std::max( tl, std::min( tr, int( v.col ) ) ); v.row = std::max( tt, std::min( tb, int( v.row ) ) ); return v;
    };
    const MV best = clampmv( near[ 0 ] );
    const uint8_t mp[4] = { mode_contexts[ cnt[ 0 ] ][ 0 ], mode_contexts[ cnt[ 1 ] ][ 1 ], mode_contexts[ cnt[ 2 ] ][ 2 ], mode_contexts[ cnt[ 3 ] ][ 3 ] };
    put_tree( e, t_mvref, mp, m.mvmode );
    auto added = [&]( const MV & d ) { MV v; v.row = best.row + 2 * d.row; v.col = best.col + 2 * d.col; return v; };
    switch ( m.mvmode ) {
    case NEAREST: I.mv = clampmv( near[ 1 ] ); break;
    case NEAR: I.mv = clampmv( near[ 2 ] ); break;
    case ZERO: break;
    case NEW: put_mv( e, m.delta, P.mv ); I.mv = added( m.delta ); break;
    case SPLIT: {
      I.split = true;
      put_tree( e, t_split, split_probs, m.split );
      for ( int p = 0; p < split_parts[ m.split ]; p++ ) {
        int b = 0; while ( split_map[ m.split ][ b ] != p ) b++;
        MV l = ( b & 3 ) ? I.bmv[ b - 1 ] : L.bmv[ b + 3 ], a = b >= 4 ? I.bmv[ b - 4 ] : A.bmv[ b + 12 ];
        int ctx = l == a ? ( l.zero() ? 4 : 3 ) : a.zero() ? 2 : l.zero() ? 1 : 0;
        put_tree( e, t_submv, submv_probs[ ctx ], m.sub[ p ] );
        MV v;
        switch ( m.sub[ p ] ) { case LEFT4: v = l; break; case ABOVE4: v = a; break; case ZERO4: break; case NEW4: put_mv( e, m.subdelta[ p ], P.mv ); v = added( m.subdelta[ p ] ); break; }
        for ( int x = 0; x < 16; x++ ) if ( split_map[ m.split ][ x ] == p ) I.bmv[ x ] = v;
      }
      I.mv = I.bmv[ 15 ];
      break; }
    }
    if ( not I.split ) for ( auto & x : I.bmv ) x = I.mv;
  }
  if ( g.where ) g.where->push_back( e.shifts() );
  if ( g.census ) *g.census = info;
  std::vector<uint8_t> first = e.finish();

  /* tokens */
  const int parts = 1 << f.log2parts;
  std::vector<BoolEnc> te( parts );
  struct Ctx { uint8_t y[4] {}, u[2] {}, v[2] {}, y2 = 0; };
  std::vector<Ctx> above( W );
  for ( int r = 0; r < Hh; r++ ) {
    Ctx left; BoolEnc & t = te[ r % parts ];
    for ( int c = 0; c < W; c++ ) {
      const MB & m = f.mb[ r * W + c ]; Ctx & a = above[ c ];
      const bool y2 = f.key ? m.ymode != B : m.has_y2();
      struct Note { Gen & g; BoolEnc & t; ~Note() { if ( g.tokens_end ) g.tokens_end->push_back( t.shifts() ); } } note { g, t };
      if ( f.skip_enabled and m.skip ) {
        uint8_t ay2 = a.y2, ly2 = left.y2; a = Ctx(); left = Ctx();
        if ( not y2 ) { a.y2 = ay2; left.y2 = ly2; }
        continue;
      }
      if ( y2 ) a.y2 = left.y2 = put_block( t, m.c[ 24 ], 1, a.y2 + left.y2, P );
      for ( int b = 0; b < 16; b++ ) { uint8_t & x = a.y[ b & 3 ], & l = left.y[ b >> 2 ]; x = l = put_block( t, m.c[ b ], y2 ? 0 : 3, x + l, P ); }
      for ( int b = 0; b < 4; b++ ) { uint8_t & x = a.u[ b & 1 ], & l = left.u[ b >> 1 ]; x = l = put_block( t, m.c[ 16 + b ], 2, x + l, P ); }
      for ( int b = 0; b < 4; b++ ) { uint8_t & x = a.v[ b & 1 ], & l = left.v[ b >> 1 ]; x = l = put_block( t, m.c[ 20 + b ], 2, x + l, P ); }
    }
  }
  if ( not f.refresh_entropy ) g.probs = saved;

  std::vector<uint8_t> out;
  const uint32_t tag = ( f.key ? 0 : 1 ) | ( f.version << 1 ) | ( f.show << 4 ) | ( uint32_t( first.size() ) << 5 );
  for ( int i = 0; i < 3; i++ ) out.push_back( tag >> ( 8 * i ) );
  if ( f.key ) {
    out.insert( out.end(), { 0x9d, 0x01, 0x2a, uint8_t( f.w ), uint8_t( ( f.w >> 8 ) | ( f.hscale << 6 ) ), uint8_t( f.h ), uint8_t( ( f.h >> 8 ) | ( f.vscale << 6 ) ) } );
  }
  out.insert( out.end(), first.begin(), first.end() );
  std::vector<std::vector<uint8_t>> tp; for ( auto & x : te ) tp.push_back( x.finish() );
  for ( int i = 0; i + 1 < parts; i++ ) for ( int k = 0; k < 3; k++ ) out.push_back( tp[ i ].size() >> ( 8 * k ) );
  for ( auto & x : tp ) out.insert( out.end(), x.begin(), x.end() );
  return out;
}

/* small deterministic generator, used for texture only */
struct Lcg { uint64_t s; explicit Lcg( uint64_t x ) : s( x * 6364136223846793005ull + 1442695040888963407ull ) {} uint32_t operator()( uint32_t n ) { s = s * 6364136223846793005ull + 1442695040888963407ull; return uint32_t( s >> 33 ) % n; } };

}
#endif
