/* Streams (as bytes) for the checks that do not look inside frames: every frame a set of deviations away from
   textured bases behind a fixed prefix, and sequences over the alphabet. */
#ifndef CORPUS_HH
#define CORPUS_HH
#include "mc.hh"
#include "deviate.hh"
#include "alphabet.hh"
#include "starts.hh"
namespace vp8 {
typedef vector<uint8_t> Bytes;
struct Corpus {
  string name; int w, h; vector<Frame> before; Frame base; Devs devs; Gen g0; vector<Bytes> prefix;
  void ready() { for ( auto & f : before ) prefix.push_back( emit( f, g0 ) ); }
  uint64_t size() const { return devs.size() + 1; }
  string label( uint64_t i ) const { return name + ": " + ( i ? devs[ i - 1 ].name : "base" ); }
  Frame chosen( uint64_t i ) const { Frame f = base; if ( i ) devs[ i - 1 ].apply( f ); return f; }
  Bytes frame( uint64_t i ) const { Gen g = g0; return emit( chosen( i ), g ); }
};
inline vector<Frame> three_references( int w, int h, int k )
{
  Frame g2 = noisy_inter( w, h, 21 + k, 5 ); g2.refresh_golden = true; g2.refresh_last = false; for ( auto & m : g2.mb ) if ( m.ref > 1 ) m.ref = 1;
  Frame a2 = noisy_inter( w, h, 22 + k, 5 ); a2.refresh_alt = true; a2.refresh_last = false; for ( auto & m : a2.mb ) if ( m.ref > 1 ) m.ref = 0;
  return { noisy_key( w, h, 20 + k, 6 ), g2, a2 };
}
inline vector<Corpus> corpora( int w, int h, int hstep, int mvstep, bool all_coefs )
{
  vector<Corpus> o( 2 );
  Corpus & k = o[ 0 ]; k.name = mc::fmt( "key %dx%d", w, h ); k.w = w; k.h = h; k.base = noisy_key( w, h, 14 ); k.base.log2parts = 1;
  Corpus & i = o[ 1 ]; i.name = mc::fmt( "inter %dx%d", w, h ); i.w = w; i.h = h; i.before = three_references( w, h, 5 ); i.base = noisy_inter( w, h, 75, 2 ); i.base.log2parts = 2; i.base.sign_golden = true;
  for ( auto & c : o ) {
    header_devs( c.devs, c.base, hstep );
    const int last = c.base.mb.size() - 1, mid = c.base.mb.size() / 2;
    for ( int n = 0; n <= last; n++ ) mode_devs( c.devs, c.base, n, n == mid ? mvstep : 40 * mvstep );
    for ( int n : { 0, last } ) coef_devs( c.devs, n, all_coefs );
    c.ready();
  }
  return o;
}
/* the alphabet, every letter decodable after any other, with the frames' bytes depending on what came before */
struct Stream {
  Gen g; vector<Bytes> frames; vector<string> names; bool started = false;
  void push( const string & n, const Frame & f, int w, int h )
  {
    if ( not started and not f.key ) { frames.push_back( emit( noisy_key( w, h, 503, 5 ), g ) ); names.push_back( "initial key" ); }
    started = true; frames.push_back( emit( f, g ) ); names.push_back( n );
  }
};
inline vector<Bytes> start_bytes( int k, int w, int h ) { Gen g; vector<Bytes> o; for ( auto & f : start_frames( k, w, h ) ) o.push_back( emit( f, g ) ); return o; }
/* sequence number i of length depth over the alphabet */
inline Stream sequence( uint64_t i, int depth, const vector<std::pair<string, Frame>> & A, int w, int h )
{
  Stream s; for ( int k = 0; k < depth; k++ ) { const auto & a = A[ i % A.size() ]; i /= A.size(); s.push( a.first, a.second, w, h ); } return s;
}
}
#endif
