/* P23: the programs that encode, terminate, rebase, merge, compare and play chunks. Their own main functions (renamed)
   run in processes of their own on files in memory; every way to cut clips into chunks, chunks from other encoders, and
   every pair of states. Oracles: the reference decoder on the chunks one after the other, a decoder of our own. */
#include "encpics.hh"
#include "corpus.hh"
#include "programs.hh"
#include <memory>
#include <map>
#include "enc_state_serializer.hh"
using namespace std;
using mc::fmt;

#define MAIN( n ) int n##_main( int, char ** );
MAIN( enc ) MAIN( terminate ) MAIN( merge ) MAIN( dump ) MAIN( diff ) MAIN( bundle ) MAIN( comp ) MAIN( vp8decode ) MAIN( ssim )
int framesize_main( int, char const ** );
static int framesize( int n, char ** a ) { return framesize_main( n, const_cast<char const **>( a ) ); }

static void put( string & s, const Picture & p ) { s += "FRAME\n"; for ( auto v : { &p.y, &p.u, &p.v } ) s.append( v->begin(), v->end() ); }
static string y4m( const vector<int> & pics, int w, int h )
{
  string s = fmt( "YUV4MPEG2 W%d H%d F24:1 Ip A1:1 C420 XYSCSS=420\n", w, h );
  for ( int k : pics ) {
    Picture p; p.w = w; p.h = h; const unsigned cw = ( w + 1 ) / 2, ch = ( h + 1 ) / 2; p.y.resize( w * h ); p.u.resize( cw * ch ); p.v.resize( cw * ch );
    for ( int y = 0; y < h; y++ ) for ( int x = 0; x < w; x++ ) p.y[ y * w + x ] = pixel( k, 0, x, y );
    for ( unsigned y = 0; y < ch; y++ ) for ( unsigned x = 0; x < cw; x++ ) { p.u[ y * cw + x ] = pixel( k, 1, x, y ); p.v[ y * cw + x ] = pixel( k, 2, x, y ); }
    put( s, p );
  }
  return s;
}
static bool is_key( const Bytes & f ) { return not ( f.at( 0 ) & 1 ); }
static string body( const string & s, int w, int h, const string & what )
{
  const size_t e = s.find( '\n' ); mc::require( e != string::npos, what + ": no video header" );
  const string hd = s.substr( 0, e + 1 );
  mc::require( hd.find( fmt( " W%d ", w ) ) != string::npos and hd.find( fmt( " H%d ", h ) ) != string::npos, what + ": wrong picture size in the header" );
  return s.substr( e + 1 );
}

/* the chunks so far, decoded without the programs */
struct Reference {
  int w, h; Decoder dec; VpxDecoder vpx; string shown; unsigned n_shown = 0;
  Reference( int w_, int h_ ) : w( w_ ), h( h_ ), dec( w_, h_ ) {}
  void feed( const Bytes & f, const string & what )
  {
    auto r = dec.get_frame_output( Chunk( f ) );
    mc::require( vpx.decode( f ) == 0, what + ": the reference decoder rejects the frame" );
    Picture p; const bool s = vpx.get( p );
    mc::require( s == r.first, what + ": shown by one decoder only" );
    if ( s ) { const string d = picture_diff( picture( r.second ), p ); mc::require( d.empty(), what + ": differs from the reference decoder: " + d ); put( shown, p ); n_shown++; }
    mc::state( mc::mix( dec.get_hash().hash(), refs_digest( dec.get_references() ) ) );
  }
  string saved() const { EncoderStateSerializer o; dec.serialize( o ); Mem m; o.write( m.path ); return m.bytes(); }
};

/* a chunk as an encoder that knows nothing of the others delivers it */
struct Source { vector<int> pics; bool extra = false, raw = false /* not terminated before it is rebased */; vector<Bytes> frames; bool refused = false; };
struct Rebase { string weight; bool no_wait; bool realtime; };
static const Rebase REBASES[] = { { "1", true, false }, { "0.75", false, false }, { "0", true, true }, { "0.5", true, true }, { "-1", true, false } };

static vector<Bytes> primary( const vector<int> & pics, const vector<string> & options, int w, int h )
{
  /* the same chunk occurs in many clips */
  static map<pair<vector<int>, vector<string>>, vector<Bytes>> known; auto & mine = known[ { pics, options } ]; if ( mine.size() ) return mine;
  Mem in( y4m( pics, w, h ) ), out; vector<string> a { "-i", "y4m", "-o", out.path }; a.insert( a.end(), options.begin(), options.end() ); a.push_back( in.path );
  must( tool( enc_main, a ), "xc-enc" );
  Clip c = clip( out.bytes(), "xc-enc's output" );
  mc::require( c.frames.size() == pics.size(), "xc-enc's output has another number of frames" );
  mc::require( is_key( c.frames[ 0 ] ), "the first frame is not a key frame" );
  return mine = c.frames;
}
/* terminates a chunk: the same pictures, and a last frame that replaces all references */
static string terminated( const vector<Bytes> & frames, int w, int h )
{
  static map<vector<Bytes>, string> known; if ( known.size() > 500 ) known.clear(); auto & mine = known[ frames ]; if ( mine.size() ) return mine;
  Mem in( ivf( frames, w, h ) ), out, st;
  must( tool( terminate_main, { in.path, out.path, st.path } ), "xc-terminate-chunk" );
  const string o = out.bytes(); const Clip c = clip( o, "xc-terminate-chunk's output" );
  mc::require( c.frames.size() == frames.size(), "xc-terminate-chunk changes the number of frames" );
  Reference a( w, h ), b( w, h );
  for ( size_t k = 0; k < frames.size(); k++ ) { a.feed( frames[ k ], "chunk" ); b.feed( c.frames[ k ], "terminated chunk" ); }
  mc::require( a.shown == b.shown, "xc-terminate-chunk changes what is shown" );
  mc::require( a.dec.get_state() == b.dec.get_state(), "xc-terminate-chunk changes the final probabilities, segmentation or filter adjustments" );
  const References r = b.dec.get_references();
  mc::require( raster_digest( r.last ) == raster_digest( r.golden ) and raster_digest( r.last ) == raster_digest( r.alternative ), "after a terminated chunk the references are not one picture" );
  mc::require( st.bytes() == b.saved(), "xc-terminate-chunk's state is not the state its output ends in" );
  return mine = o;
}
static string dumped( const string & chunk, const string & from, int frame = -1 )
{
  Mem in( chunk ), st( from ), out; vector<string> a; if ( from.size() ) a = { "-S", st.path }; if ( frame >= 0 ) { a.push_back( "-f" ); a.push_back( to_string( frame ) ); }
  a.push_back( in.path ); a.push_back( out.path );
  must( tool( dump_main, a ), "xc-dump" );
  return out.bytes();
}

/* mean squared error of frame k of what is shown, against frame m of the input */
static double error( const string & shown, size_t k, size_t framelen, const string & in, size_t m, size_t head )
{
  double e = 0; for ( size_t i = 6; i < framelen; i++ ) { const double d = double( uint8_t( shown[ k * framelen + i ] ) ) - double( uint8_t( in[ head + m * framelen + i ] ) ); e += d * d; } return e / ( framelen - 6 );
}

/* one chunk after the other: the first as it is (terminated), the others rebased onto the state before */
static void chain( const vector<Source> & src, const Rebase & rb, int w, int h, bool tools )
{
  Reference ref( w, h ); string state; vector<string> files, states; vector<unsigned> shown_after;
  for ( size_t c = 0; c < src.size(); c++ ) {
    const string what = fmt( "chunk %zu", c ); const string term = src[ c ].raw ? ivf( src[ c ].frames, w, h ) : terminated( src[ c ].frames, w, h );
    string out;
    if ( c == 0 ) out = term;
    else {
      Mem in( y4m( src[ c ].pics, w, h ) ), pred( term ), st( state ), o, fin;
      vector<string> a { "-r", "-i", "y4m", "-I", st.path, "-p", pred.path, "-w", rb.weight, "-o", o.path, "-O", fin.path, "-q", rb.realtime ? "rt" : "best" };
      if ( rb.no_wait ) a.push_back( "-W" );
      if ( src[ c ].extra ) a.push_back( "-e" );
      a.push_back( in.path );
      const int rc = tool( enc_main, a );
      if ( src[ c ].refused ) { mc::require( rc == 1, what + ": a segmented key frame would become an inter frame, which is not supported, but is not refused" ); return; }
      must( rc, what + ": rebasing" );
      out = o.bytes();
      const Clip k = clip( out, what ), t = clip( term, what );
      const size_t skip = src[ c ].extra;
      mc::require( k.w == unsigned( w ) and k.h == unsigned( h ), what + ": other picture size" );
      mc::require( k.frames.size() + skip == src[ c ].pics.size(), what + ": rebasing changes the number of frames" );
      mc::require( k.entry == ref.dec.minihash(), what + fmt( ": expects to start from %08x, the chunk before ends in %08x", k.entry, ref.dec.minihash() ) );
      for ( size_t f = 0; f < k.frames.size(); f++ ) mc::require( is_key( k.frames[ f ] ) == ( f and is_key( t.frames[ f + skip ] ) ), what + fmt( ": frame %zu is%s a key frame", f, is_key( k.frames[ f ] ) ? "" : " not" ) );
      for ( auto & f : k.frames ) ref.feed( f, what );
      if ( fin.bytes() != ref.saved() ) mc::fail( what + ": the final state the encoder saved is not the one a decoder reaches" );
      const string d = dumped( out, state );
      mc::require( d == fin.bytes(), what + ": xc-dump and the encoder save different final states" );
      state = d;
      if ( tools ) {
        /* near the input, as the chunk's own frames are (the largest ratio seen is 4.5) */
        const size_t len = ref.shown.size() / ref.n_shown; const string in = y4m( src[ c ].pics, w, h ); const size_t head = in.find( '\n' ) + 1;
        Reference own( w, h ); for ( auto & f : src[ c ].frames ) own.feed( f, "" );
        for ( size_t f = 0; f < k.frames.size(); f++ ) {
          const double a = error( ref.shown, ref.n_shown - k.frames.size() + f, len, in, f + skip, head ), b = error( own.shown, f + skip, len, in, f + skip, head );
          mc::require( a + 1 <= 10 * ( b + 1 ), what + fmt( ": frame %zu is far from the input: mean squared error %g, before rebasing %g", f, a, b ) );
        }
      }
    }
    if ( c == 0 ) { for ( auto & f : clip( out, what ).frames ) ref.feed( f, what ); state = dumped( out, "" ); mc::require( state == ref.saved(), "xc-dump saves another state" ); }
    files.push_back( out ); states.push_back( state ); shown_after.push_back( ref.n_shown );
    /* the saved state stands for the decoder */
    Mem st( state ); const Decoder d = EncoderStateDeserializer::build<Decoder>( st.path );
    mc::require( d == ref.dec and d.minihash() == ref.dec.minihash(), what + ": the saved state is not the decoder's" );
  }
  /* all of them played */
  vector<unique_ptr<Mem>> m; string names; for ( auto & f : files ) { m.emplace_back( new Mem( f ) ); names += m.back()->path + "\n"; }
  string out; must( tool( bundle_main, {}, &out, names ), "decode-bundle" );
  mc::require( body( out, w, h, "decode-bundle" ) == ref.shown, "decode-bundle shows something else than the chunks hold" );
  if ( not tools ) return;
  const size_t len = ref.shown.size() / max( 1u, ref.n_shown );
  for ( size_t c = 1; c < files.size(); c++ ) {
    /* from a saved state, the rest */
    Mem st( states[ c - 1 ] ); string rest; for ( size_t k = c; k < files.size(); k++ ) rest += m[ k ]->path + "\n";
    must( tool( bundle_main, { st.path }, &out, rest ), "decode-bundle from a state" );
    mc::require( body( out, w, h, "decode-bundle from a state" ) == ref.shown.substr( shown_after[ c - 1 ] * len ), "decode-bundle from a state shows something else" );
    Mem y; must( tool( vp8decode_main, { "-s", st.path, "-o", y.path, m[ c ]->path } ), "vp8decode from a state" );
    mc::require( body( y.bytes(), w, h, "vp8decode" ) == ref.shown.substr( shown_after[ c - 1 ] * len, ( shown_after[ c ] - shown_after[ c - 1 ] ) * len ), "vp8decode from a state shows something else" );
    /* in other places the chunk is refused, unless the state is the same there */
    for ( size_t k = 0; k < files.size(); k++ ) {
      if ( k == c ) continue;
      const string before = k ? states[ k - 1 ] : ""; const bool same = before == states[ c - 1 ];
      Mem bs( before ); vector<string> a; if ( before.size() ) a = { bs.path };
      const int rc = tool( bundle_main, a, &out, m[ c ]->path + "\n" );
      if ( same ) must( rc, "decode-bundle from an equal state" ); else mc::require( rc == 1 and ( out.find( "FRAME" ) == string::npos ), "a chunk is played from a state it was not encoded for" );
      Mem nowhere; vector<string> da; if ( before.size() ) da = { "-S", bs.path }; da.push_back( m[ c ]->path ); da.push_back( nowhere.path );
      mc::require( ( tool( dump_main, da ) == 0 ) == same, "xc-dump on a state the chunk was not encoded for" );
    }
  }
  if ( files.size() > 1 ) {
    Mem g, y; must( tool( merge_main, { m[ 0 ]->path, m[ 1 ]->path, g.path } ), "xc-merge" );
    string last = g.bytes(); for ( size_t c = 2; c < files.size(); c++ ) { Mem a( last ), b; must( tool( merge_main, { a.path, m[ c ]->path, b.path } ), "xc-merge" ); last = b.bytes(); }
    const Clip k = clip( last, "merged" ); vector<Bytes> all; for ( auto & f : files ) { auto x = clip( f, "chunk" ).frames; all.insert( all.end(), x.begin(), x.end() ); }
    mc::require( k.frames == all, "xc-merge does not give the frames of both in order" );
    Mem r( last ); must( tool( vp8decode_main, { "-o", y.path, r.path } ), "vp8decode" );
    mc::require( body( y.bytes(), w, h, "vp8decode" ) == ref.shown, "the merged chunks show something else" );
    must( tool( framesize, { r.path }, &out ), "xc-framesize" );
    string want; for ( size_t n = 0; n < all.size(); n++ ) want += fmt( "%08zu %zu\n", n, all[ n ].size() );
    mc::require( out.substr( 0, want.size() ) == want, "xc-framesize reports other sizes" );
  }
}

static void clips()
{
  const bool T = mc::thorough(); const int W = 35, H = 20;
  const vector<int> P = T ? vector<int> { 0, 1, 7, 5 } : vector<int> { 0, 1, 7 };
  const int N = 4; uint64_t np = 1; for ( int k = 0; k < N; k++ ) np *= P.size();
  const vector<vector<string>> opts { { "-y", "12" }, { "-y", "70" }, { "-s", "0.9" }, { "-y", "4", "-q", "rt" }, { "-y", "127", "--two-pass" } };
  const uint64_t R = T ? 5 : 1, O = T ? 5 : 3;
  mc::run( fmt( "clips of %d pictures cut in every way", N ), np * 7 * 2 * R * O, [&]( uint64_t i ) {
    mc::Digits d( i ); vector<int> pics; for ( int k = 0; k < N; k++ ) pics.push_back( P[ d( P.size() ) ] );
    const int cuts = d( 7 ) + 1, extra = d( 2 ), o = d( O ), r = T ? d( R ) : o;
    string nm = "pictures"; vector<Source> src; Source s;
    for ( int k = 0; k < N; k++ ) {
      nm += fmt( " %d%s", pics[ k ], k + 1 < N and ( cuts >> k & 1 ) ? " |" : "" ); s.pics.push_back( pics[ k ] );
      if ( k + 1 == N or ( cuts >> k & 1 ) ) { src.push_back( s ); s = Source(); if ( extra and k + 1 < N ) { s.extra = true; s.pics.push_back( pics[ k ] ); } }
    }
    nm += string( extra ? ", with an extra frame" : "" ) + ", options"; for ( auto & x : opts[ o ] ) nm += " " + x; nm += ", weight " + REBASES[ r ].weight; mc::describe( nm );
    const bool raw = ( cuts + o ) % 2; if ( raw ) nm += ", not terminated first"; mc::describe( nm );
    for ( auto & x : src ) { x.frames = primary( x.pics, opts[ o ], W, H ); x.raw = raw and &x != &src[ 0 ]; }
    chain( src, REBASES[ r ], W, H, true );
    if ( i % 997 == 5 ) mc::sample( nm );
  }, 2 );
}

/* chunks as other encoders make them, from the alphabet of frames */
static vector<Bytes> crafted( const vector<vp8::Frame> & f ) { vp8::Gen g; vector<Bytes> o; for ( auto & x : f ) o.push_back( vp8::emit( x, g ) ); return o; }
static void foreign()
{
  const bool T = mc::thorough(); const int W = 32, H = 16;
  auto A = vp8::alphabet( W, H ); for ( auto & a : A ) a.second.show = true;
  const int D = T ? 3 : 2; uint64_t n = 1; for ( int k = 0; k < D; k++ ) n *= A.size();
  mc::run( fmt( "chunks of a key frame and %d frames of an alphabet of %zu, rebased", D, A.size() ), n * 2 * ( T ? 2 : 1 ), [&]( uint64_t i ) {
    mc::Digits d( i ); vector<vp8::Frame> f { vp8::noisy_key( W, H, 503, 5 ) }; string nm = "key";
    for ( int k = 0; k < D; k++ ) { const auto & a = A[ d( A.size() ) ]; f.push_back( a.second ); nm += ", " + a.first; }
    Source s0, s1; s1.raw = d( 2 ); const bool extra = d( 2 ); s0.pics = { 0, 1 }; if ( s1.raw ) nm += ", not terminated first"; s0.frames = primary( s0.pics, { "-y", "20" }, W, H );
    s1.frames = crafted( f ); s1.extra = extra; for ( size_t k = 0; k < f.size(); k++ ) s1.pics.push_back( k % 2 ? 1 : 10 );
    mc::describe( nm );
    chain( { s0, s1 }, REBASES[ 0 ], W, H, false );
    if ( i % 997 == 5 ) mc::sample( nm );
  }, 2 );
  mc::run( "rebased onto every kind of state", vp8::N_STARTS * A.size() * 2 * 2 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); const int st = d( vp8::N_STARTS ); const auto & a = A[ d( A.size() ) ]; const int extra = d( 2 ), rt = d( 2 ); Source s0, s1; s1.raw = d( 2 );
    mc::describe( fmt( "start state %d, key, %s, weight %s%s%s", st, a.first.c_str(), REBASES[ 1 + rt ].weight.c_str(), extra ? ", extra frame" : "", s1.raw ? ", not terminated first" : "" ) );
    auto f0 = vp8::start_frames( st, W, H ); for ( auto & x : f0 ) x.show = true; s0.frames = crafted( f0 );
    s1.frames = crafted( { vp8::noisy_key( W, H, 503, 5 ), a.second, vp8::noisy_inter( W, H, 77 ) } ); s1.pics = { 3, 0, 7 }; s1.extra = extra;
    s1.refused = extra and a.second.key and a.second.seg;
    chain( { s0, s1 }, REBASES[ 1 + rt ], W, H, false );
  }, 2 );
}

/* every syntax element of the frames of a chunk, rebased and terminated */
static void deviations()
{
  const bool T = mc::thorough();
  for ( auto size : { pair<int, int> { 35, 20 }, pair<int, int> { 16, 16 } } ) {
    const int W = size.first, H = size.second; if ( W == 16 and not T ) continue;
    auto cs = vp8::corpora( W, H, T ? 5 : 51, T ? 6 : 19, T );
    /* residues are made anew: fewer of them */
    if ( not T ) for ( auto & c : cs ) { vp8::Devs few; int n = 0, m = 0; for ( auto & d : c.devs ) if ( d.name.find( "coef" ) != string::npos ? n++ % 8 == 0 : d.name.compare( 0, 2, "mb" ) or m++ % 3 == 0 ) few.push_back( d ); c.devs = few; }
    for ( int middle = 0; middle < 2; middle++ ) for ( auto & c : cs ) {
      const bool key = c.base.key;
      mc::run( fmt( "%s frame one deviation away, %s, %dx%d", key ? "key" : "inter", middle ? "within a chunk" : key ? "first of a chunk" : "last of a chunk", W, H ), c.size(), [&]( uint64_t i ) {
        vector<vp8::Frame> f; Source s0, s1; vp8::Frame x = c.base; if ( i ) c.devs[ i - 1 ].apply( x ); x.show = true;
        mc::describe( c.label( i ) );
        if ( not vp8::tame( x ) ) { mc::count( 1 ); return; }
        if ( not key ) { f = c.before; for ( auto & k : f ) k.show = true; }
        if ( key and middle ) f.push_back( vp8::noisy_key( W, H, 3, 5 ) );
        f.push_back( x );
        if ( middle ) f.push_back( vp8::noisy_inter( W, H, 9 ) );
        s0.pics = { 0, 1 }; s0.frames = primary( s0.pics, { "-y", "30" }, W, H );
        s1.frames = crafted( f ); for ( size_t k = 0; k < f.size(); k++ ) s1.pics.push_back( ( k * 7 + 3 ) % N_PICS );
        s1.refused = key and not middle and x.seg;
        chain( { s0, s1 }, REBASES[ i % 5 ], W, H, false );
        if ( i % 997 == 5 ) mc::sample( c.label( i ) );
      }, 2 );
    }
  }
}

/* a frame kept from one chunk to the next: the programs that look at states */
struct Saved { string name, bytes; };
static vector<Saved> saved_states( int w, int h )
{
  vector<Saved> o; auto A = vp8::alphabet( w, h ); for ( auto & a : A ) a.second.show = true;
  auto add = [&]( const string & n, const vector<vp8::Frame> & f ) { Reference r( w, h ); for ( auto & x : clip( terminated( crafted( f ), w, h ), n ).frames ) r.feed( x, n ); o.push_back( { n, r.saved() } ); };
  for ( int k = 0; k < vp8::N_STARTS; k++ ) { auto f = vp8::start_frames( k, w, h ); for ( auto & x : f ) x.show = true; add( fmt( "start %d", k ), f ); }
  for ( auto & a : A ) add( a.first, { vp8::noisy_key( w, h, 503, 5 ), a.second } );
  /* states that differ in one value */
  auto one = [&]( const string & n, const function<void( vp8::Frame & )> & g ) { vp8::Frame f = vp8::noisy_key( w, h, 503, 5 ), z = vp8::noisy_inter( w, h, 77 ); g( z ); add( n, { f, z } ); };
  one( "base", []( vp8::Frame & ) {} );
  for ( int i = 0; i < 4; i++ ) one( fmt( "coefficient probability %d", i ), [=]( vp8::Frame & f ) { f.coef.push_back( { uint8_t( i ), uint8_t( 2 * i ), uint8_t( i % 3 ), uint8_t( 10 - i ), 99 } ); } );
  for ( int i = 0; i < 4; i++ ) one( fmt( "y mode probability %d", i ), [=]( vp8::Frame & f ) { static const int d[] = { 112, 86, 140, 37 }; f.y_prob_update = true; for ( int k = 0; k < 4; k++ ) f.y_prob[ k ] = d[ k ] + ( k == i ); } );
  for ( int i = 0; i < 3; i++ ) one( fmt( "chroma mode probability %d", i ), [=]( vp8::Frame & f ) { static const int d[] = { 162, 101, 204 }; f.uv_prob_update = true; for ( int k = 0; k < 3; k++ ) f.uv_prob[ k ] = d[ k ] + ( k == i ); } );
  for ( int i = 0; i < 2; i++ ) for ( int j : { 0, 1, 10, 18 } ) one( fmt( "motion vector probability %d,%d", i, j ), [=]( vp8::Frame & f ) { f.mv_prob[ i ][ j ] = vp8::OptI( 5 ); } );
  for ( int i = 0; i < 4; i++ ) for ( int v : { 1, 2 } ) { one( fmt( "filter adjustment for references %d %d", i, v ), [=]( vp8::Frame & f ) { f.level = 0; f.lf_delta = f.lf_delta_update = true; f.lf_ref[ i ] = vp8::OptI( v ); } ); one( fmt( "filter adjustment for modes %d %d", i, v ), [=]( vp8::Frame & f ) { f.level = 0; f.lf_delta = f.lf_delta_update = true; f.lf_mode[ i ] = vp8::OptI( v ); } ); }
  for ( int i = 0; i < 4; i++ ) for ( int v : { 1, 2 } ) { one( fmt( "segment quantizer %d %d", i, v ), [=]( vp8::Frame & f ) { f.seg = f.seg_map = f.seg_data = true; for ( auto & m : f.mb ) m.segment = 0; f.seg_q[ i ] = vp8::OptI( v ); } ); one( fmt( "segment filter %d %d", i, v ), [=]( vp8::Frame & f ) { f.level = 0; f.seg = f.seg_map = f.seg_data = true; for ( auto & m : f.mb ) m.segment = 0; f.seg_lf[ i ] = vp8::OptI( v ); } ); }
  for ( int ab = 0; ab < 2; ab++ ) for ( size_t n = 0; n < vp8::noisy_inter( w, h, 77 ).mb.size(); n++ ) one( fmt( "segment of macroblock %zu, %s", n, ab ? "absolute" : "relative" ), [=]( vp8::Frame & f ) { f.seg = f.seg_map = f.seg_data = true; f.seg_abs = ab; for ( int k = 0; k < 4; k++ ) f.seg_q[ k ] = vp8::OptI( 20 ); for ( auto & m : f.mb ) m.segment = 0; f.mb[ n ].segment = 2; } );
  return o;
}
static void states()
{
  const int W = 32, H = 16; static vector<Saved> S; if ( S.empty() ) S = saved_states( W, H );
  mc::run( fmt( "every pair of %zu states compared", S.size() ), S.size() * S.size(), [&]( uint64_t i ) {
    const Saved & a = S[ i % S.size() ], & b = S[ i / S.size() ]; mc::describe( a.name + " and " + b.name );
    const bool same = a.bytes == b.bytes; Mem x( a.bytes ), y( b.bytes ); string out;
    const int rc = tool( diff_main, { x.path, y.path }, &out );
    mc::require( rc == ( same ? 0 : 1 ), fmt( "xc-diff ends with status %d for %s states", rc, same ? "equal" : "different" ) );
    mc::require( out.empty() == same, "xc-diff reports " + ( same ? "a difference between equal states" : string( "nothing" ) ) );
    const Decoder p = EncoderStateDeserializer::build<Decoder>( x.path ), q = EncoderStateDeserializer::build<Decoder>( y.path );
    mc::require( ( p == q ) == same and ( p != q ) == not same, "the decoders compare otherwise" );
    if ( not same ) {
      auto says = [&]( const char * s ) { return out.find( s ) != string::npos; };
      const DecoderState & s = p.get_state(), & t = q.get_state();
      auto agree = [&]( bool different, const char * text ) { mc::require( says( text ) == different, string( "xc-diff " ) + ( different ? "does not say \"" : "wrongly says \"" ) + text + "\"" ); };
      agree( raster_digest( p.get_references().last ) != raster_digest( q.get_references().last ), "Last references are different." );
      agree( s.probability_tables.coeff_probs != t.probability_tables.coeff_probs, "Coefficient probabilities are different." );
      agree( s.probability_tables.y_mode_probs != t.probability_tables.y_mode_probs, "Y-mode probabilities are different." );
      agree( s.probability_tables.uv_mode_probs != t.probability_tables.uv_mode_probs, "UV-mode probabilities are different." );
      agree( s.probability_tables.motion_vector_probs != t.probability_tables.motion_vector_probs, "Motion vector probabilities are different." );
      agree( not ( s.segmentation == t.segmentation ), "Segmentations are different." );
      agree( not ( s.filter_adjustments == t.filter_adjustments ), "Filter adjustments are different." );
    }
    const int rd = tool( comp_main, { x.path, y.path }, &out );
    uint64_t bits = 0; const size_t n = min( a.bytes.size(), b.bytes.size() ); for ( size_t k = 0; k < n; k++ ) bits += __builtin_popcount( uint8_t( a.bytes[ k ] ^ b.bytes[ k ] ) ); bits += 8 * ( max( a.bytes.size(), b.bytes.size() ) - n );
    mc::require( ( rd == 0 ) == same, fmt( "comp-states ends with status %d", rd ) );
    mc::require( stoull( out ) == bits, "comp-states counts " + out + fmt( " differing bits, not %lu", bits ) );
    mc::state( mc::hash_bytes( a.bytes.data(), a.bytes.size() ) );
    if ( i % 997 == 5 ) mc::sample( a.name + " and " + b.name );
  }, 8 );
}

/* the state after every frame of a stream, the encoder started from it, and what is refused */
static void dumps()
{
  const int W = 32, H = 16; auto A = vp8::alphabet( W, H );
  mc::run( "a state after every frame, an encoder that continues from it", A.size() * A.size(), [&]( uint64_t i ) {
    mc::Digits d( i ); const auto & a = A[ d( A.size() ) ], & b = A[ d( A.size() ) ]; mc::describe( "key, " + a.first + ", " + b.first );
    const vector<Bytes> f = crafted( { vp8::noisy_key( W, H, 503, 5 ), a.second, b.second } ); const string file = ivf( f, W, H ); Reference r( W, H ); string st;
    for ( size_t k = 0; k < f.size(); k++ ) {
      r.feed( f[ k ], "stream" ); st = dumped( file, "", k );
      mc::require( st == r.saved(), fmt( "xc-dump -f %zu saves another state", k ) );
    }
    mc::require( dumped( file, "" ) == st, "xc-dump does not save the last state" );
    { Mem in( file ), o; mc::require( tool( dump_main, { "-f", to_string( f.size() ), in.path, o.path } ) == 1, "xc-dump of a frame that does not exist" ); }
    /* the encoder continues from the saved state (which holds one picture) */
    Mem sm( st ), in( y4m( { 0, 1, 7 }, W, H ) ), out; must( tool( enc_main, { "-i", "y4m", "-I", sm.path, "-y", "25", "-o", out.path, in.path } ), "xc-enc from a state" );
    const Clip c = clip( out.bytes(), "xc-enc from a state" ); Decoder dec = EncoderStateDeserializer::build<Decoder>( sm.path );
    mc::require( c.frames.size() == 3 and c.entry == dec.minihash(), "xc-enc from a state: wrong frames or entry state" );
    string shown; for ( auto & x : c.frames ) { mc::require( not is_key( x ), "xc-enc from a state writes a key frame" ); auto q = dec.get_frame_output( Chunk( x ) ); put( shown, picture( q.second ) ); }
    Mem y; string o; must( tool( bundle_main, { sm.path }, &o, out.path + "\n" ), "decode-bundle from a state" );
    mc::require( body( o, W, H, "decode-bundle" ) == shown, "decode-bundle from a state shows something else" );
    mc::require( tool( bundle_main, {}, &o, out.path + "\n" ) == 1, "a chunk that starts from a state is played without it" );
    /* terminating it, which needs a key frame first */
    Mem to, so; mc::require( tool( terminate_main, { out.path, to.path, so.path } ) == 1, "xc-terminate-chunk accepts a chunk that starts from a state" );
  }, 2 );
  mc::run( "what is refused", 6, [&]( uint64_t i ) {
    mc::isolated( [&] {
    const vector<Bytes> k = primary( { 0, 1 }, { "-y", "20" }, W, H ), b = primary( { 0, 1 }, { "-y", "20" }, 48, 16 ); const string st = dumped( terminated( k, W, H ), "" );
    Mem a( ivf( k, W, H ) ), c( ivf( b, 48, 16 ) ), o, s( st ), in( y4m( { 0, 1 }, W, H ) ), in3( y4m( { 0, 1, 7 }, W, H ) ), wide( y4m( { 0, 1 }, 48, 16 ) );
    auto no = [&]( int rc, const char * what ) { mc::describe( what ); mc::require( rc != 0, string( what ) + " is not refused" ); };
    switch ( i ) {
    case 0: no( tool( merge_main, { a.path, c.path, o.path } ), "merging chunks of different sizes" ); break;
    case 1: no( tool( enc_main, { "-r", "-i", "y4m", "-p", a.path, "-W", "-o", o.path, in.path } ), "rebasing without a state" ); break;
    case 2: no( tool( enc_main, { "-r", "-i", "y4m", "-I", s.path, "-p", a.path, "-W", "-o", o.path, in3.path } ), "rebasing with another number of pictures" ); break;
    case 3: no( tool( enc_main, { "-r", "-i", "y4m", "-I", s.path, "-p", c.path, "-W", "-o", o.path, wide.path } ), "rebasing onto a state of another size" ); break;
    case 4: { Mem p; no( tool( enc_main, { "-r", "-i", "y4m", "-I", s.path, "-p", a.path, "-W", "-o", o.path, p.path } ), "rebasing no pictures" ); break; }
    default: { Mem r; must( tool( enc_main, { "-i", "y4m", "-I", s.path, "-y", "9", "-o", r.path, in.path } ), "xc-enc" ); no( tool( enc_main, { "-r", "-i", "y4m", "-I", s.path, "-p", r.path, "-W", "-o", o.path, in.path } ), "a prediction chunk without its state" ); }
    } } );
  } );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  if ( mc::only != "foreign" ) clips();
  foreign(); deviations(); states(); dumps();
  return mc::finish( { { "frames_left_out", mc::S->counters[ 1 ].load() } } );
}
