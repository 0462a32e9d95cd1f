#ifndef STARTS_HH
#define STARTS_HH
#include "vp8base.hh"
namespace vp8 {
using std::vector;
/* decoder states an encoder may be started from, as the frames that lead to them */
static const int N_STARTS = 14;
inline vector<Frame> start_frames( int k, int w, int h )
{
  vector<Frame> s { noisy_key( w, h, 11 ) };
  auto inter = [&]( uint64_t seed ) { Frame f = noisy_inter( w, h, seed ); return f; };
  switch ( k ) {
  case 0: break;
  case 1: { Frame a = inter( 1 ); s.push_back( a ); break; }                                       /* last differs from golden, altref */
  case 2: { Frame a = inter( 1 ); a.refresh_golden = true; Frame b = inter( 2 ); b.copy_alt = 1; s.push_back( a ); s.push_back( b ); break; } /* all three differ */
  case 3: { Frame & f = s[ 0 ]; f.seg = f.seg_map = f.seg_data = true; f.seg_abs = true; for ( int i = 0; i < 4; i++ ) { f.seg_q[ i ] = OptI( 10 + 25 * i ); f.seg_lf[ i ] = OptI( 5 + 12 * i ); } break; }
  case 4: { Frame & f = s[ 0 ]; f.seg = f.seg_map = f.seg_data = true; for ( int i = 0; i < 4; i++ ) { f.seg_q[ i ] = OptI( -20 + 15 * i ); f.seg_lf[ i ] = OptI( -9 + 6 * i ); } Frame a = inter( 1 ); a.seg = true; s.push_back( a ); break; }
  case 5: { Frame & f = s[ 0 ]; f.lf_delta = f.lf_delta_update = true; for ( int i = 0; i < 4; i++ ) { f.lf_ref[ i ] = OptI( 8 - 5 * i ); f.lf_mode[ i ] = OptI( -6 + 4 * i ); } break; }
  case 6: { Frame & f = s[ 0 ]; f.lf_delta = f.lf_delta_update = true; for ( int i = 0; i < 4; i++ ) { f.lf_ref[ i ] = OptI( 8 - 5 * i ); f.lf_mode[ i ] = OptI( -6 + 4 * i ); } Frame a = inter( 1 ); s.push_back( a ); break; } /* adjustments known but disabled */
  case 7: { Frame & f = s[ 0 ]; for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int l = 0; l < 11; l++ ) f.coef.push_back( { uint8_t( i ), uint8_t( j ), uint8_t( ( i + j ) % 3 ), uint8_t( l ), uint8_t( 1 + ( i * 61 + j * 31 + l * 17 ) % 255 ) } ); break; }
  case 8: { Frame a = inter( 1 ); a.y_prob_update = a.uv_prob_update = true; a.y_prob[ 0 ] = 3; a.y_prob[ 1 ] = 250; a.y_prob[ 2 ] = 9; a.y_prob[ 3 ] = 200; a.uv_prob[ 0 ] = 5; a.uv_prob[ 1 ] = 251; a.uv_prob[ 2 ] = 33; s.push_back( a ); break; }
  case 9: { Frame a = inter( 1 ); for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) a.mv_prob[ i ][ j ] = OptI( ( i * 37 + j * 23 + 1 ) % 128 ); s.push_back( a ); break; }
  case 10: { Frame a = inter( 1 ); a.refresh_entropy = false; a.y_prob_update = true; a.y_prob[ 0 ] = 1; a.coef.push_back( { 3, 1, 1, 2, 7 } ); s.push_back( a ); break; }
  case 11: { Frame a = inter( 1 ); a.sign_golden = a.sign_alt = true; a.refresh_golden = true; s.push_back( a ); break; }
  case 12: { Frame a = inter( 1 ); a.refresh_last = false; a.refresh_alt = true; a.show = false; s.push_back( a ); break; }
  default: { Frame & f = s[ 0 ]; f.seg = f.seg_map = f.seg_data = true; for ( int i = 0; i < 4; i++ ) f.seg_q[ i ] = OptI( -20 + 15 * i ); Frame a = inter( 1 ); a.seg = false; s.push_back( a ); break; } /* segmentation known but disabled */
  }
  return s;
}

}
#endif
