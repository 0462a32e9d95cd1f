/* libvpx (the reference VP8 decoder), loaded at run time: the independent oracle for decoded pictures */
#ifndef VPXREF_HH
#define VPXREF_HH
#include <cstdint>
#include <cstring>
#include <dlfcn.h>
#include <stdexcept>
#include <string>
#include <vector>

struct VpxImage { int fmt, cs, range; unsigned w, h, bit_depth, d_w, d_h, r_w, r_h, xs, ys; unsigned char * planes[4]; int stride[4]; };

struct Picture {
  unsigned w = 0, h = 0;
  std::vector<uint8_t> y, u, v;
  bool operator==( const Picture & o ) const { return w == o.w and h == o.h and y == o.y and u == o.u and v == o.v; }
};

class VpxDecoder
{
  struct Api {
    int ( *init )( void *, void *, const void *, long, int );
    int ( *decode )( void *, const uint8_t *, unsigned, void *, long );
    VpxImage * ( *get )( void *, const void ** );
    int ( *destroy )( void * );
    void * ( *dx )();
  };
  static Api & api()
  {
    static Api a = [] {
      void * h = dlopen( "libvpx.so.9", RTLD_NOW );
      if ( not h ) throw std::runtime_error( "libvpx.so.9 not found" );
      Api x;
      *(void **) &x.init = dlsym( h, "vpx_codec_dec_init_ver" ); *(void **) &x.decode = dlsym( h, "vpx_codec_decode" );
      *(void **) &x.get = dlsym( h, "vpx_codec_get_frame" ); *(void **) &x.destroy = dlsym( h, "vpx_codec_destroy" );
      *(void **) &x.dx = dlsym( h, "vpx_codec_vp8_dx" );
      return x;
    }();
    return a;
  }
  alignas( 16 ) char ctx_[ 512 ];
public:
  VpxDecoder()
  {
    memset( ctx_, 0, sizeof ctx_ );
    int r = api().init( ctx_, api().dx(), nullptr, 0, 12 );
    if ( r ) throw std::runtime_error( "vpx init: " + std::to_string( r ) );
  }
  ~VpxDecoder() { api().destroy( ctx_ ); }
  VpxDecoder( const VpxDecoder & ) = delete;
  /* 0 on success */
  int decode( const std::vector<uint8_t> & f ) { return api().decode( ctx_, f.data(), f.size(), nullptr, 0 ); }
  /* false when the frame is not shown */
  bool get( Picture & p )
  {
    const void * it = nullptr;
    VpxImage * i = api().get( ctx_, &it );
    if ( not i ) return false;
    p.w = i->d_w; p.h = i->d_h;
    auto copy = []( const unsigned char * s, int st, unsigned w, unsigned h ) { std::vector<uint8_t> o( w * h ); for ( unsigned r = 0; r < h; r++ ) memcpy( &o[ r * w ], s + r * st, w ); return o; };
    p.y = copy( i->planes[ 0 ], i->stride[ 0 ], p.w, p.h );
    p.u = copy( i->planes[ 1 ], i->stride[ 1 ], ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 );
    p.v = copy( i->planes[ 2 ], i->stride[ 2 ], ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 );
    return true;
  }
};
#endif
