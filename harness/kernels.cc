/* P22: the same executions in two builds, one with the processor-specific kernels and one without. Each execution
   mixes what it produced into a digest; mc.hh compares the digests of the two builds. */
#include "alf.hh"
#include "starts.hh"
#include "encpics.hh"
#include "loopfilter.hh"
using namespace vp8;
using std::string; using std::vector;

static void encodings()
{
  const bool T = mc::thorough();
  const int w = 48, h = 32;
  /* every picture after every picture, with every kind of rate control */
  vector<Mode> modes; for ( int q : { 0, 4, 12, 25, 40, 60, 85, 110, 127 } ) modes.push_back( { 'q', q } );
  modes.push_back( { 's', 300 } ); modes.push_back( { 's', 900 } ); modes.push_back( { 'm', 900 } ); modes.push_back( { 'm', 980 } );
  const vector<EncoderQuality> qs = { BEST_QUALITY, REALTIME_QUALITY };
  auto bytes = []( const Bytes & b ) { mc::digest( mc::hash_bytes( b.data(), b.size() ) ); mc::transition(); };
  auto pairs = [&]( const string & space, bool two_pass ) {
    mc::run( space, uint64_t( N_PICS ) * N_PICS * modes.size() * 2, [&]( uint64_t i ) {
      mc::Digits d( i ); const int a = d( N_PICS ), b = d( N_PICS ); const Mode m = modes[ d( modes.size() ) ]; const auto q = qs[ d( 2 ) ];
      mc::describe( string( pic_name( a ) ) + ", " + pic_name( b ) + " " + mode_name( m ) + mc::fmt( " quality %d two passes %d", int( q ), two_pass ) );
      Encoder e( w, h, two_pass, q );
      bytes( encode( e, input( a, w, h ).get(), { 'q', 30 } ) ); bytes( encode( e, input( b, w, h ).get(), m ) );
      const Decoder x = e.export_decoder(); mc::digest( x.get_hash().hash() ); mc::digest( refs_digest( x.get_references() ) );
      mc::state( mc::S->w[ mc::self ].digest );
      if ( i % 1009 == 3 ) mc::sample( mc::S->w[ mc::self ].what );
    }, 4 );
  };
  pairs( "encodings of every pair of pictures", false );
  pairs( "encodings of every pair of pictures, two passes", true );
  mc::run( "every quantizer", 128 * N_PICS * ( T ? 8 : 2 ), [&]( uint64_t i ) {
    mc::Digits d( i ); const int q = d( 128 ), a = d( N_PICS ), b = d( T ? 8 : 2 );
    mc::describe( mc::fmt( "%s after %s quantizer %d", pic_name( a ), pic_name( b ), q ) );
    Encoder e( w, h, false, REALTIME_QUALITY );
    bytes( encode( e, input( b, w, h ).get(), { 'q', 20 } ) ); bytes( encode( e, input( a, w, h ).get(), { 'q', q } ) ); bytes( encode( e, input( ( a + 1 ) % N_PICS, w, h ).get(), { 'q', q } ) );
    mc::digest( e.export_decoder().get_hash().hash() ); mc::state( mc::S->w[ mc::self ].digest );
  }, 4 );
  /* displacements: motion search and prediction */
  const int D = T ? 21 : 13;
  mc::run( "displaced pictures", uint64_t( D ) * D * 4, [&]( uint64_t i ) {
    mc::Digits d( i ); const int st = T ? 2 : 3, dx = ( int( d( D ) ) - D / 2 ) * st, dy = ( int( d( D ) ) - D / 2 ) * st, blend = d( 4 );
    mc::describe( mc::fmt( "displaced by (%d,%d) blend %d", dx, dy, blend ) );
    auto pic = [&]( int x0, int y0, int bl ) {
      MutableRasterHandle m( w, h ); VP8Raster & r = m.get();
      auto at = [&]( int x, int y, int p ) { return ( tex( x + 100, y + 100, p ) * ( 4 - bl ) + tex( x + 101, y + 100 + ( bl & 1 ), p ) * bl + 2 ) / 4; };
      for ( unsigned y = 0; y < r.height(); y++ ) for ( unsigned x = 0; x < r.width(); x++ ) r.Y().at( x, y ) = at( x + x0, y + y0, 0 );
      for ( unsigned y = 0; y < r.height() / 2; y++ ) for ( unsigned x = 0; x < r.width() / 2; x++ ) { r.U().at( x, y ) = at( x + x0 / 2, y + y0 / 2, 1 ); r.V().at( x, y ) = at( x + x0 / 2, y + y0 / 2, 2 ); }
      return RasterHandle( std::move( m ) );
    };
    for ( auto q : qs ) {
      Encoder e( w, h, false, q );
      bytes( encode( e, pic( 0, 0, 0 ).get(), { 'q', 10 } ) ); bytes( encode( e, pic( dx, dy, blend ).get(), { 'q', 24 } ) );
      mc::digest( e.export_decoder().get_hash().hash() );
    }
    mc::state( mc::S->w[ mc::self ].digest );
  }, 4 );
}

#ifdef WITH_KERNELS
struct Plane { MutableRasterHandle h { 48, 48 }; VP8Raster & r { h.get() }; VP8Raster::Macroblock mb { 1, 1, r }; };
static uint64_t coefs( const DCTCoefficients & c ) { return mc::hash_bytes( &c.at( 0 ), 32 ); }

static void transforms()
{
  const bool T = mc::thorough();
  static const int PX[ 3 ][ 2 ] = { { 0, 0 }, { 255, 0 }, { 0, 255 } };
  const int QF[] = { 4, 17, 60, 157, 284 };
  mc::run( "forward and inverse transform of every pattern of extreme residuals", 6561, [&]( uint64_t i ) {
    mc::describe( mc::fmt( "upper half pattern %lu", i ) );
    Plane a, b, out; auto & x = a.mb.Y_sub_at( 1, 1 ); auto & y = b.mb.Y_sub_at( 1, 1 ); auto & o = out.mb.Y_sub_at( 1, 1 ); uint64_t dg = 0;
    mc::Digits hi( i ); for ( int k = 0; k < 8; k++ ) { const int v = hi( 3 ); x.at( k & 3, k >> 2 ) = PX[ v ][ 0 ]; y.at( k & 3, k >> 2 ) = PX[ v ][ 1 ]; }
    for ( uint64_t j = 0; j < 6561; j++ ) {
      mc::Digits lo( j ); for ( int k = 8; k < 16; k++ ) { const int v = lo( 3 ); x.at( k & 3, k >> 2 ) = PX[ v ][ 0 ]; y.at( k & 3, k >> 2 ) = PX[ v ][ 1 ]; }
      alignas( 16 ) DCTCoefficients c; c.subtract_dct( x, y.contents() ); dg = mc::mix( dg, coefs( c ) );
      const int q = QF[ ( i + j ) % 5 ];
      const std::pair<uint16_t, uint16_t> f { q, q };
      alignas( 16 ) const DCTCoefficients r = c.quantize( f ).dequantize( f );
      for ( int k = 0; k < 16; k++ ) o.at( k & 3, k >> 2 ) = y.at( k & 3, k >> 2 );
      r.idct_add( o ); for ( int k = 0; k < 4; k++ ) dg = mc::mix( dg, mc::hash_bytes( &o.at( 0, k ), 4 ) );
    }
    mc::digest( dg ); mc::transition( 6561 );
  }, 16 );
  mc::run( "transform of two arbitrary residuals", 120, [&]( uint64_t i ) {
    int p = 0, k = i; while ( k >= 15 - p ) { k -= 15 - p; p++; } const int s = p + 1 + k;
    mc::describe( mc::fmt( "positions %d and %d", p, s ) );
    Plane a, b, out; auto & x = a.mb.Y_sub_at( 1, 1 ); auto & y = b.mb.Y_sub_at( 1, 1 ); auto & o = out.mb.Y_sub_at( 1, 1 ); uint64_t dg = 0; const int st = T ? 1 : 5;
    for ( int n = 0; n < 16; n++ ) x.at( n & 3, n >> 2 ) = y.at( n & 3, n >> 2 ) = 90 + n;
    auto set = [&]( int n, int v ) { x.at( n & 3, n >> 2 ) = v > 0 ? v : 0; y.at( n & 3, n >> 2 ) = v > 0 ? 0 : -v; };
    for ( int v = -255; v <= 255; v += st ) for ( int u = -255; u <= 255; u += st ) {
      set( p, v ); set( s, u );
      alignas( 16 ) DCTCoefficients c; c.subtract_dct( x, y.contents() ); dg = mc::mix( dg, coefs( c ) );
      for ( int n = 0; n < 16; n++ ) o.at( n & 3, n >> 2 ) = y.at( n & 3, n >> 2 );
      c.idct_add( o ); for ( int n = 0; n < 4; n++ ) dg = mc::mix( dg, mc::hash_bytes( &o.at( 0, n ), 4 ) );
      mc::S->transitions++;
    }
    mc::digest( dg );
  } );
  auto walsh = [&]( DCTCoefficients & c, SafeArray<int16_t, 16> & in, int q, uint64_t & dg ) {
    c.wht( in ); dg = mc::mix( dg, coefs( c ) );
    const std::pair<uint16_t, uint16_t> f { q, q };
    alignas( 16 ) const DCTCoefficients r = q > 1 ? c.quantize( f ).dequantize( f ) : c;
    alignas( 16 ) SafeArray<SafeArray<DCTCoefficients, 4>, 4> o; r.iwht( o );
    for ( int a = 0; a < 4; a++ ) for ( int b = 0; b < 4; b++ ) dg = mc::mix( dg, uint16_t( o.at( a ).at( b ).at( 0 ) ) );
  };
  for ( const int M : { 2040, 1019, 3 } ) mc::run( mc::fmt( "second-order transform of every pattern of levels 0 and +-%d", M ), 6561, [&]( uint64_t i ) {
    mc::describe( mc::fmt( "upper half pattern %lu", i ) );
    alignas( 16 ) SafeArray<int16_t, 16> in; alignas( 16 ) DCTCoefficients c; uint64_t dg = 0;
    for ( uint64_t j = 0; j < 6561; j++ ) {
      mc::Digits hi( i ), lo( j );
      for ( int k = 0; k < 8; k++ ) { in.at( k ) = ( int( hi( 3 ) ) - 1 ) * M; in.at( k + 8 ) = ( int( lo( 3 ) ) - 1 ) * M; }
      walsh( c, in, M == 3 ? 1 : QF[ ( i + j ) % 5 ] * ( M == 2040 ? 1 : 2 ), dg );
    }
    mc::digest( dg ); mc::transition( 6561 );
  }, 16 );
  mc::run( "second-order transform of two arbitrary levels", 120, [&]( uint64_t i ) {
    int p = 0, k = i; while ( k >= 15 - p ) { k -= 15 - p; p++; } const int s = p + 1 + k;
    mc::describe( mc::fmt( "positions %d and %d", p, s ) );
    alignas( 16 ) SafeArray<int16_t, 16> in; alignas( 16 ) DCTCoefficients c; uint64_t dg = 0; const int st = T ? 3 : 37;
    for ( int n = 0; n < 16; n++ ) in.at( n ) = n * 3 - 20;
    for ( int v = -2040; v <= 2040; v += st ) for ( int u = -2040; u <= 2040; u += st ) { in.at( p ) = v; in.at( s ) = u; walsh( c, in, 1, dg ); }
    mc::digest( dg ); mc::transition( ( 4081 / st + 1 ) * ( 4081 / st + 1 ) );
  } );
  mc::run( "every level times every factor", 441, [&]( uint64_t i ) {
    mc::describe( mc::fmt( "factor %lu", i ) ); uint64_t dg = 0;
    for ( int v = -2114; v <= 2114; v++ ) {
      alignas( 16 ) DCTCoefficients c; for ( int k = 0; k < 16; k++ ) c.at( k ) = v + k;
      dg = mc::mix( dg, coefs( c.dequantize( { 440 - i, i } ) ) );
      if ( i > 3 ) dg = mc::mix( dg, coefs( c.quantize( { 440 - i > 3 ? 440 - i : 4, i } ) ) );
    }
    mc::digest( dg ); mc::transition( 4229 );
  }, 8 );
}

static VP8Raster::Block<4> & blk( VP8Raster::Macroblock & m, VP8Raster::Block<4> * ) { return m.Y_sub_at( 2, 1 ); }
static VP8Raster::Block<8> & blk( VP8Raster::Macroblock & m, VP8Raster::Block<8> * ) { return m.U; }
static VP8Raster::Block<16> & blk( VP8Raster::Macroblock & m, VP8Raster::Block<16> * ) { return m.Y; }
static uint32_t sad_of( const VP8Raster::Block<16> & x, const VP8Raster::Block<16> & y ) { return Encoder::sad( x, y.contents() ); }
template <unsigned N> static uint32_t sad_of( const VP8Raster::Block<N> &, const VP8Raster::Block<N> & ) { return 0; }

template <unsigned N> static void distortion()
{
  static const int V[] = { 0, 255, -255, 1, -1, 128, -129 };
  auto put = []( VP8Raster::Block<N> & x, VP8Raster::Block<N> & y, int c, int r, int d ) { x.at( c, r ) = d > 0 ? d : 0; y.at( c, r ) = d > 0 ? 0 : -d; };
  auto add = []( const VP8Raster::Block<N> & x, const VP8Raster::Block<N> & y, uint64_t & dg ) {
    dg = mc::mix( dg, mc::mix( Encoder::sse( x, y.contents() ), mc::mix( Encoder::variance( x, y.contents() ), sad_of( x, y ) ) ) ); mc::S->transitions++;
  };
  /* every set of rows (columns) that differ by one value, the others by another */
  const uint64_t sets = uint64_t( 1 ) << std::min( N, mc::thorough() ? 16u : 12u );
  mc::run( mc::fmt( "distortion of %ux%u: every set of rows, columns x differences", N, N ), 49 * 2 * 16, [&]( uint64_t i ) {
    mc::Digits d( i ); const int a = V[ d( 7 ) ], b = V[ d( 7 ) ], cols = d( 2 ), part = d( 16 );
    mc::describe( mc::fmt( "differences %d and %d by %s part %d", a, b, cols ? "columns" : "rows", part ) );
    Plane p, q; auto & x = blk( p.mb, (VP8Raster::Block<N> *) nullptr ); auto & y = blk( q.mb, (VP8Raster::Block<N> *) nullptr ); uint64_t dg = 0;
    for ( uint64_t s = part; s < sets; s += 16 ) {
      for ( unsigned r = 0; r < N; r++ ) for ( unsigned c = 0; c < N; c++ ) put( x, y, c, r, ( s * ( N > 12 ? 17 : 1 ) >> ( ( cols ? c : r ) % 16 ) ) & 1 ? a : b );
      add( x, y, dg );
    }
    mc::digest( dg );
  }, 8 );
  /* every difference at every place on every background */
  mc::run( mc::fmt( "distortion of %ux%u: every difference at every place", N, N ), N * N * 7, [&]( uint64_t i ) {
    mc::Digits d( i ); const int at = d( N * N ), bg = V[ d( 7 ) ];
    mc::describe( mc::fmt( "place %d background %d", at, bg ) );
    Plane p, q; auto & x = blk( p.mb, (VP8Raster::Block<N> *) nullptr ); auto & y = blk( q.mb, (VP8Raster::Block<N> *) nullptr ); uint64_t dg = 0;
    for ( unsigned r = 0; r < N; r++ ) for ( unsigned c = 0; c < N; c++ ) put( x, y, c, r, bg );
    for ( int v = -255; v <= 255; v++ ) { put( x, y, at % N, at / N, v ); add( x, y, dg ); }
    mc::digest( dg );
  }, 8 );
}

static void predictions()
{
  const bool T = mc::thorough();
  /* six-tap interpolation */
  auto fill = []( Plane & p, const std::function<int( int, int )> & f ) {
    for ( int y = 0; y < 48; y++ ) for ( int x = 0; x < 48; x++ ) p.r.Y().at( x, y ) = f( x, y );
    for ( int y = 0; y < 24; y++ ) for ( int x = 0; x < 24; x++ ) p.r.U().at( x, y ) = f( x, y );
  };
  auto interpolate = [&]( Plane & ref, Plane & out, int mx, int my, uint64_t & dg, bool safe ) {
    auto y4 = [&]( const MotionVector & mv ) { auto & b = out.mb.Y_sub_at( 1, 1 ); b.inter_predict( mv, ref.r.Y() ); for ( int k = 0; k < 4; k++ ) dg = mc::mix( dg, mc::hash_bytes( &b.at( 0, k ), 4 ) ); };
    const MotionVector mv( mx, my ); y4( mv );
    { auto & b = out.mb.U; b.inter_predict( mv, ref.r.U() ); for ( int k = 0; k < 8; k++ ) dg = mc::mix( dg, mc::hash_bytes( &b.at( 0, k ), 8 ) ); }
    { auto & b = out.mb.Y; b.inter_predict( mv, ref.r.Y() ); for ( int k = 0; k < 16; k++ ) dg = mc::mix( dg, mc::hash_bytes( &b.at( 0, k ), 16 ) ); }
    if ( safe ) { const SafeRaster s( ref.r ); auto & b = out.mb.Y; b.inter_predict( mv, s, b.mutable_contents() ); for ( int k = 0; k < 16; k++ ) dg = mc::mix( dg, mc::hash_bytes( &b.at( 0, k ), 16 ) ); }
    mc::S->transitions++;
  };
  static const int L[] = { 0, 255, 128, 1, 254, 77 };
  const int nl = T ? 6 : 4; uint64_t lines = 1; for ( int k = 0; k < 6; k++ ) lines *= nl;
  mc::run( "interpolation of every line of six pixels", lines, [&]( uint64_t i ) {
    mc::Digits d( i ); int v[ 6 ]; for ( int & x : v ) x = L[ d( nl ) ]; mc::describe( mc::fmt( "pixels %d %d %d %d %d %d", v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ] ) );
    Plane ref, out; uint64_t dg = 0;
    fill( ref, [&]( int x, int ) { return v[ x % 6 ]; } ); for ( int m = 0; m < 8; m++ ) interpolate( ref, out, m, 0, dg, false );
    fill( ref, [&]( int, int y ) { return v[ y % 6 ]; } ); for ( int m = 1; m < 8; m++ ) interpolate( ref, out, 0, m, dg, m == 3 );
    mc::digest( dg );
  }, 16 );
  mc::run( "two-dimensional interpolation of products of black and white lines", 64 * 64 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int H = d( 64 ), V = d( 64 ), nx = d( 2 ); mc::describe( mc::fmt( "columns %d rows %d %s", H, V, nx ? "xor" : "and" ) );
    Plane ref, out; uint64_t dg = 0;
    fill( ref, [&]( int x, int y ) { const int a = H >> ( x % 6 ) & 1, b = V >> ( y % 6 ) & 1; return ( nx ? a ^ b : a & b ) ? 255 : 0; } );
    for ( int mx = 0; mx < 8; mx++ ) for ( int my = 0; my < 8; my++ ) interpolate( ref, out, mx, my, dg, mx * 8 + my == int( i % 64 ) );
    mc::digest( dg );
  }, 16 );
  mc::run( "interpolation at every displacement", 97 * 97, [&]( uint64_t i ) {
    mc::Digits d( i ); const int mx = ( int( d( 97 ) ) - 48 ) * 5, my = ( int( d( 97 ) ) - 48 ) * 5; mc::describe( mc::fmt( "vector (%d,%d)", mx, my ) );
    Plane ref, out; uint64_t dg = 0; fill( ref, []( int x, int y ) { return pixel( 7, 0, x, y ); } );
    interpolate( ref, out, mx, my, dg, true ); mc::digest( dg );
  }, 32 );
  /* intra prediction: every edge of black, grey and white pixels */
  static const int E[] = { 0, 255, 127 };
  mc::run( "every subblock mode on every edge of three levels", 1594323, [&]( uint64_t i ) {
    static Plane p; auto & b = p.mb.Y_sub_at( 2, 2 ); const int X = 16 + 8, Y = 16 + 8;
    mc::Digits d( i ); uint64_t dg = 0;
    for ( int k = -1; k < 8; k++ ) p.r.Y().at( X + k, Y - 1 ) = E[ d( 3 ) ];
    for ( int k = 0; k < 4; k++ ) p.r.Y().at( X - 1, Y + k ) = E[ d( 3 ) ];
    for ( int m = B_DC_PRED; m <= B_HU_PRED; m++ ) { b.intra_predict( bmode( m ) ); for ( int k = 0; k < 4; k++ ) dg = mc::mix( dg, mc::hash_bytes( &b.at( 0, k ), 4 ) ); }
    mc::digest( dg ); mc::transition( 10 );
  }, 8192 );
  mc::run( "macroblock modes: every corner, edge steps and place", 9 * 33 * 33 * 6, [&]( uint64_t i ) {
    mc::Digits d( i ); const int place = d( 9 ), a = d( 33 ), l = d( 33 ), v = d( 6 ); uint64_t dg = 0;
    mc::describe( mc::fmt( "place %d above step %d left step %d levels %d", place, a, l, v ) );
    static const int P[ 6 ][ 3 ] = { { 0, 255, 0 }, { 255, 0, 128 }, { 3, 4, 255 }, { 254, 255, 1 }, { 0, 1, 0 }, { 200, 60, 129 } };
    static Plane p; const int mx = place % 3, my = place / 3; 
    auto plane = [&]( TwoD<uint8_t> & t, int X, int Y, int n ) {
      for ( int k = -1; k < n; k++ ) { if ( Y > 0 and X + k >= 0 ) t.at( X + k, Y - 1 ) = k < 0 ? P[ v ][ 2 ] : P[ v ][ k * 2 >= a ]; if ( X > 0 and k >= 0 ) t.at( X - 1, Y + k ) = P[ v ][ k * 2 >= l ]; }
    };
    plane( p.r.Y(), 16 * mx, 16 * my, 16 ); plane( p.r.U(), 8 * mx, 8 * my, 8 );
    VP8Raster::Macroblock mb( mx, my, p.r );
    for ( int m = DC_PRED; m <= TM_PRED; m++ ) {
      mb.Y.intra_predict( mbmode( m ) ); mb.U.intra_predict( mbmode( m ) );
      for ( int k = 0; k < 16; k++ ) dg = mc::mix( dg, mc::hash_bytes( &mb.Y.at( 0, k ), 16 ) ); for ( int k = 0; k < 8; k++ ) dg = mc::mix( dg, mc::hash_bytes( &mb.U.at( 0, k ), 8 ) );
    }
    mc::digest( dg ); mc::transition( 8 );
  }, 256 );
}

static void filters()
{
  /* every line of eight pixels over the levels, sixteen at a time, across all edges of a macroblock */
  static const int S[ 4 ][ 4 ] = { { 0, 255, 128, 127 }, { 100, 103, 108, 118 }, { 120, 121, 122, 124 }, { 60, 64, 90, 200 } };
  static const int LV[] = { 1, 2, 5, 10, 15, 16, 22, 31, 39, 40, 47, 55, 63 };
  const int nlv = 13, nsh = mc::thorough() ? 8 : 3;
  mc::run( "loop filter on every line of eight pixels of four levels", 4 * nlv * nsh * 2 * 16, [&]( uint64_t i ) {
    mc::Digits d( i ); const int set = d( 4 ), lv = LV[ d( nlv ) ], sh = nsh == 8 ? d( 8 ) : uint64_t( d( 3 ) * 3 ), key = d( 2 ), part = d( 16 );
    mc::describe( mc::fmt( "levels %d filter level %d sharpness %d key %d part %d", set, lv, sh, key, part ) );
    static Plane p; uint64_t dg = 0; NormalLoopFilter f( key, FilterParameters( false, lv, sh ) );
    for ( int base = part * 4096; base < ( part + 1 ) * 4096; base += 16 ) for ( int dir = 0; dir < 2; dir++ ) {
      auto px = [&]( int along, int across ) { return S[ set ][ ( base + along ) >> ( 2 * ( across & 7 ) ) & 3 ]; };
      for ( int y = 0; y < 48; y++ ) for ( int x = 0; x < 48; x++ ) p.r.Y().at( x, y ) = dir ? px( x & 15, y + 4 ) : px( y & 15, x + 4 );
      for ( int y = 0; y < 24; y++ ) for ( int x = 0; x < 24; x++ ) { p.r.U().at( x, y ) = p.r.Y().at( x, y ); p.r.V().at( x, y ) = p.r.Y().at( x + 8, y + 8 ); }
      f.filter( p.mb, ( base >> 4 ) & 1 );
      dg = mc::mix( dg, raster_digest( p.r ) );
    }
    mc::digest( dg ); mc::transition( 512 );
  }, 4 );
}
#endif

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  encodings();
#ifdef WITH_KERNELS
  transforms(); distortion<4>(); distortion<8>(); distortion<16>(); predictions(); filters();
#endif
  return mc::finish( {} );
}
