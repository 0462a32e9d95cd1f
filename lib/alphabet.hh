/* Frames that change what a decoder retains, each in its own way: the letters of the sequence spaces. */
#ifndef ALPHABET_HH
#define ALPHABET_HH
#include "vp8base.hh"
namespace vp8 {
using std::string; using std::vector;
inline vector<std::pair<string, Frame>> alphabet( int w, int h )
{
  vector<std::pair<string, Frame>> A;
  auto seg = []( Frame & f, bool map, bool data, bool abs, int var ) {
    f.seg = true; f.seg_map = map; f.seg_data = data; f.seg_abs = abs;
    for ( int i = 0; i < 4; i++ ) { f.seg_q[ i ] = OptI( abs ? 10 + 20 * i + var : 9 * i - 14 + var ); f.seg_lf[ i ] = OptI( abs ? 5 + 14 * i : 8 - 6 * i ); }
    for ( int i = 0; i < 3; i++ ) f.seg_prob[ i ] = OptI( 90 + 40 * i );
  };
  auto add = [&]( const string & n, Frame f, std::function<void( Frame & )> g ) { g( f ); A.push_back( { n, f } ); };
  const Frame K = noisy_key( w, h, 501, 5 ), I = noisy_inter( w, h, 502, 3 );
  Frame K2 = noisy_key( w, h, 503, 5 ), I2 = noisy_inter( w, h, 504, 3 );
  add( "key", K, []( Frame & ) {} );
  add( "key seg", K2, [&]( Frame & f ) { seg( f, true, true, false, 0 ); } );
  add( "key seg without map", K, [&]( Frame & f ) { seg( f, false, true, false, 3 ); } );
  add( "key lf deltas", K2, []( Frame & f ) { f.lf_delta = f.lf_delta_update = true; for ( int i = 0; i < 4; i++ ) { f.lf_ref[ i ] = OptI( 9 - 7 * i ); f.lf_mode[ i ] = OptI( 5 * i - 8 ); } } );
  add( "key probs", K, []( Frame & f ) { for ( int i = 0; i < 4; i++ ) f.coef.push_back( { uint8_t( i ), 1, 1, 2, 77 } ); } );
  add( "key probs once", K, []( Frame & f ) { for ( int i = 0; i < 4; i++ ) f.coef.push_back( { uint8_t( i ), 1, 1, 2, 33 } ); f.refresh_entropy = false; } );
  add( "inter", I, []( Frame & ) {} );
  add( "golden", I2, []( Frame & f ) { f.refresh_golden = true; f.refresh_last = false; } );
  add( "altref hidden", I, []( Frame & f ) { f.refresh_alt = true; f.refresh_last = false; f.show = false; } );
  add( "golden from last", I2, []( Frame & f ) { f.copy_golden = 1; f.sign_golden = true; } );
  add( "golden from altref", I, []( Frame & f ) { f.copy_golden = 2; } );
  add( "altref from last", I2, []( Frame & f ) { f.copy_alt = 1; } );
  add( "altref from golden", I, []( Frame & f ) { f.copy_alt = 2; f.sign_alt = true; } );
  add( "swap", I2, []( Frame & f ) { f.copy_alt = 2; f.copy_golden = 2; } );
  add( "nothing kept", I2, []( Frame & f ) { f.refresh_last = false; } );
  add( "seg map+data", I, [&]( Frame & f ) { seg( f, true, true, true, 0 ); } );
  add( "seg map", I2, [&]( Frame & f ) { seg( f, true, false, false, 0 ); } );
  add( "seg data", I, [&]( Frame & f ) { seg( f, false, true, false, 5 ); } );
  add( "seg data partial", I, [&]( Frame & f ) { seg( f, false, true, true, 2 ); f.seg_q[ 1 ] = OptI(); f.seg_lf[ 2 ] = OptI(); } );
  add( "seg kept", I2, [&]( Frame & f ) { f.seg = true; } );
  add( "lf update", I, []( Frame & f ) { f.lf_delta = f.lf_delta_update = true; for ( int i = 0; i < 4; i++ ) { f.lf_ref[ i ] = OptI( 3 * i ); f.lf_mode[ i ] = OptI( -4 * i ); } } );
  add( "lf partial", I2, []( Frame & f ) { f.lf_delta = f.lf_delta_update = true; f.lf_ref[ 1 ] = OptI( -11 ); f.lf_mode[ 3 ] = OptI( 13 ); } );
  add( "lf kept", I, []( Frame & f ) { f.lf_delta = true; } );
  add( "probs", I, []( Frame & f ) { f.coef.push_back( { 0, 1, 0, 1, 200 } ); f.coef.push_back( { 3, 0, 0, 0, 60 } ); f.y_prob_update = true; f.y_prob[ 0 ] = 60; f.uv_prob_update = true; f.uv_prob[ 1 ] = 44; f.mv_prob[ 0 ][ 2 ] = OptI( 20 ); f.mv_prob[ 1 ][ 0 ] = OptI( 90 ); } );
  add( "probs once", I2, []( Frame & f ) { f.coef.push_back( { 1, 0, 1, 1, 20 } ); f.coef.push_back( { 2, 0, 0, 1, 60 } ); f.y_prob_update = true; f.y_prob[ 2 ] = 6; f.uv_prob_update = true; f.uv_prob[ 0 ] = 250; f.mv_prob[ 1 ][ 3 ] = OptI( 7 ); f.refresh_entropy = false; } );
  return A;
}
}
#endif
