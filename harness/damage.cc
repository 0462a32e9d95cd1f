/* P17: damaged and hostile frames on the real decoder, under sanitizers.
   Every truncation, every substitution of a byte, pairs of them in the headers, all short frames and
   patterned frames: decoding throws or gives a picture; what was decoded or saved before is untouched;
   in error-concealment mode truncated frames are decoded from what arrived. */
#include "alf.hh"
#include "corpus.hh"
#include "decoder.hh"
#include "player.hh"
using namespace vp8;
using std::string; using std::vector;

struct Base {
  string name; int w, h; vector<Bytes> prefix; Frame f; Bytes frame; Gen before;
  vector<uint64_t> where;          /* bits of the first partition before each macroblock */
  size_t header, first;            /* bytes of the uncompressed header, of the first partition */
  Bytes next;                      /* an inter frame that can follow anything */
};

static Base make( const string & name, bool key, int w, int h, int log2parts, int variant )
{
  Base b; b.name = name + mc::fmt( " %dx%d %d partitions", w, h, 1 << log2parts ); b.w = w; b.h = h;
  Gen g;
  for ( auto & f : three_references( w, h, 40 + variant ) ) b.prefix.push_back( emit( f, g ) );
  b.f = key ? noisy_key( w, h, 61 + variant, 6 ) : noisy_inter( w, h, 62 + variant, 3 );
  b.f.log2parts = log2parts;
  if ( variant & 1 ) {
    b.f.seg = b.f.seg_map = b.f.seg_data = true;
    for ( int i = 0; i < 4; i++ ) { b.f.seg_q[ i ] = OptI( 7 * i - 9 ); b.f.seg_lf[ i ] = OptI( 5 - 4 * i ); }
    for ( int i = 0; i < 3; i++ ) b.f.seg_prob[ i ] = OptI( 80 + 50 * i );
    b.f.lf_delta = b.f.lf_delta_update = true;
    for ( int i = 0; i < 4; i++ ) { b.f.lf_ref[ i ] = OptI( 4 - 3 * i ); b.f.lf_mode[ i ] = OptI( 2 * i - 5 ); }
  }
  b.before = g;
  Gen ga = g; ga.where = &b.where; b.frame = emit( b.f, ga ); ga.where = nullptr;
  b.header = key ? 10 : 3;
  b.first = ( b.frame[ 0 ] | b.frame[ 1 ] << 8 | b.frame[ 2 ] << 16 ) >> 5;
  Frame n = noisy_inter( w, h, 63, 3 ); Gen gn = g; b.next = emit( n, gn );
  return b;
}

/* frame bytes in a buffer of exactly their size, so that sanitizers see every access beyond it */
struct Exact {
  uint8_t * p; size_t n;
  explicit Exact( const Bytes & b ) : p( static_cast<uint8_t *>( malloc( b.size() ) ) ), n( b.size() ) { if ( n ) memcpy( p, b.data(), n ); }
  ~Exact() { free( p ); }
  Exact( const Exact & ) = delete;
  operator Chunk() const { return Chunk( p, n ); }
};

/* a decoder after the prefix, with the pictures it handed out: must stay as they are whatever is done to copies */
struct Keep {
  const Base & b; Decoder d; vector<RasterHandle> held; vector<uint64_t> digests; uint64_t hash, good = 0; bool has_good = false;
  explicit Keep( const Base & bb ) : b( bb ), d( bb.w, bb.h )
  {
    for ( auto & f : b.prefix ) { held.push_back( d.get_frame_output( Chunk( f ) ).second ); digests.push_back( raster_digest( held.back() ) ); }
    hash = d.get_hash().hash();
  }
  void check( const string & when, bool decode )
  {
    for ( size_t i = 0; i < held.size(); i++ ) mc::require( raster_digest( held[ i ] ) == digests[ i ], when + ": a picture decoded before has changed" );
    mc::require( d.get_hash().hash() == hash, when + ": a saved decoder has changed" );
    if ( not decode ) return;
    Decoder c = d; const uint64_t g = raster_digest( c.get_frame_output( Chunk( b.frame ) ).second );
    if ( not has_good ) { good = g; has_good = true; }
    mc::require( g == good, when + ": a saved decoder decodes the intact frame differently" );
  }
};

static string refusal;
/* presents the frame to a copy of the decoder; true when it was accepted */
static bool present( const Keep & k, const Bytes & frame, bool conceal, std::pair<bool, uint64_t> * out = nullptr, Picture * pic = nullptr )
{
  Decoder d = k.d; d.set_error_concealment( conceal );
  bool accepted = false;
  try {
    Exact e( frame );
    auto o = d.get_frame_output( e );
    accepted = true;
    if ( out ) *out = { o.first, raster_digest( o.second ) };
    if ( pic ) *pic = picture( o.second );
    mc::state( mc::mix( raster_digest( o.second ), o.first ) );
  } catch ( const std::exception & e ) { refusal = e.what(); }
  mc::transition(); mc::count( accepted ? 0 : 1 );
  /* and the stream goes on */
  try { Exact e( k.b.next ); auto o = d.get_frame_output( e ); mc::state( raster_digest( o.second ) ); } catch ( const std::exception & ) {}
  return accepted;
}

static vector<uint8_t> values( uint8_t old, bool all )
{
  vector<uint8_t> v;
  if ( all ) { for ( int i = 0; i < 256; i++ ) if ( i != old ) v.push_back( i ); return v; }
  for ( int i = 0; i < 8; i++ ) v.push_back( old ^ ( 1 << i ) );
  for ( int x : { 0, 255, old ^ 255, old + 1, old - 1, 0x7f } ) if ( uint8_t( x ) != old ) v.push_back( x );
  std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); return v;
}

static vector<Base> bases()
{
  vector<Base> o;
  for ( int p = 0; p < 4; p++ ) { if ( p & 1 or mc::thorough() ) o.push_back( make( "inter", false, 33, 40, p, p ) ); }
  for ( int p = 0; p < 4; p++ ) { if ( p == 0 or p == 2 or mc::thorough() ) o.push_back( make( "key", true, 20, 18, p, p + 1 ) ); }
  o.push_back( make( "inter", false, 17, 1, 1, 8 ) );
  o.push_back( make( "inter", false, 20, 18, 1, 4 ) );
  return o;
}

static void substitutions( const vector<Base> & B )
{
  for ( const Base & b : B ) {
    mc::run( "one byte replaced: " + b.name, b.frame.size() * 2, [&]( uint64_t i ) {
      static Keep * k = nullptr; static const Base * of = nullptr;
      mc::Digits g( i ); const bool conceal = g( 2 ); const size_t pos = g( b.frame.size() );
      if ( of != &b ) mc::isolated( [&] {}), of = &b, k = new Keep( b );
      const bool all = mc::thorough() or pos < b.header + 16;
      for ( uint8_t v : values( b.frame[ pos ], all ) ) {
        Bytes f = b.frame; f[ pos ] = v;
        mc::describe( b.name + mc::fmt( ", byte %zu of %zu replaced by %d%s", pos, f.size(), v, conceal ? ", concealing" : "" ) );
        present( *k, f, conceal );
        k->check( "afterwards", false );
      }
      k->check( "afterwards", true );
    }, 8 );
  }
}

static void pairs( const vector<Base> & B )
{
  static const uint8_t alpha[] = { 0, 1, 2, 0x10, 0x7f, 0x80, 0xfe, 0xff };
  for ( const Base & b : B ) {
    if ( b.w != 20 and b.w != 17 and not mc::thorough() ) continue;
    const size_t n = std::min<size_t>( b.header + ( mc::thorough() ? 40 : 10 ), b.frame.size() );
    mc::run( "two bytes replaced: " + b.name, n * n, [&]( uint64_t i ) {
      static Keep * k = nullptr; static const Base * of = nullptr;
      mc::Digits g( i ); const size_t p = g( n ), q = g( n ); if ( p >= q ) return;
      if ( of != &b ) of = &b, k = new Keep( b );
      for ( uint8_t v : alpha ) for ( uint8_t w : alpha ) for ( int conceal = 0; conceal < 2; conceal++ ) {
        Bytes f = b.frame; f[ p ] = v; f[ q ] = w;
        mc::describe( b.name + mc::fmt( ", bytes %zu and %zu replaced by %d and %d, concealment %d", p, q, v, w, conceal ) );
        present( *k, f, conceal );
      }
      k->check( "afterwards", true );
    }, 4 );
  }
}

/* the frame is cut at every byte, whole or with a byte of its headers or partition lengths replaced */
static void cuts( const vector<Base> & B )
{
  for ( const Base & b : B ) {
    mc::run( "cut and replaced: " + b.name, b.frame.size() + 1, [&]( uint64_t n ) {
      static Keep * k = nullptr; static const Base * of = nullptr;
      if ( of != &b ) of = &b, k = new Keep( b );
      vector<size_t> where; for ( size_t p = 0; p < b.header + 6; p++ ) where.push_back( p );
      const size_t lengths = b.header + b.first; for ( int p = 0; p < 3 * ( ( 1 << b.f.log2parts ) - 1 ) + 2; p++ ) where.push_back( lengths + p );
      const Bytes cut( b.frame.begin(), b.frame.begin() + n );
      for ( int conceal = 0; conceal < 2; conceal++ ) {
        mc::describe( b.name + mc::fmt( ", cut to %lu bytes, concealment %d", n, conceal ) );
        present( *k, cut, conceal );
        for ( size_t p : where ) if ( p < n ) for ( uint8_t v : mc::thorough() ? vector<uint8_t> { 0, 1, 0x80, 0xff } : vector<uint8_t> { 0, 0xff } ) {
          Bytes f = cut; f[ p ] = v;
          mc::describe( b.name + mc::fmt( ", cut to %lu bytes, byte %zu replaced by %d, concealment %d", n, p, v, conceal ) );
          present( *k, f, conceal );
        }
      }
      k->check( "afterwards", true );
    }, 4 );
  }
}

static void short_and_patterned( const vector<Base> & B )
{
  const Base & key = B[ mc::thorough() ? 4 : 2 ], & b = B.back();   /* both 20x18 */
  mc::run( "short frames", 257, [&]( uint64_t i ) {
    static Keep * k = nullptr; if ( not k ) k = new Keep( b );
    for ( int conceal = 0; conceal < 2; conceal++ ) {
      mc::describe( mc::fmt( "frames of at most two bytes starting with %lu", i ) );
      if ( i == 256 ) { present( *k, Bytes(), conceal ); continue; }
      present( *k, Bytes( 1, i ), conceal );
      for ( int v = 0; v < 256; v++ ) { Bytes f { uint8_t( i ), uint8_t( v ) }; mc::describe( mc::fmt( "frame of two bytes %lu %d", i, v ) ); present( *k, f, conceal ); }
    }
    k->check( "afterwards", true );
  }, 4 );
  /* every first three bytes: flags and version in all combinations, first partition lengths around every boundary */
  mc::run( "first three bytes", 32, [&]( uint64_t flags ) {
    static Keep * k = nullptr; if ( not k ) k = new Keep( b );
    for ( const Base * c : { &key, &b } ) {
      const long n = c->frame.size(), h = c->header;
      vector<long> lens; for ( long x : { 0l, h, n, n - h, 1l << 8, 1l << 16, 1l << 19 } ) for ( long dlt = -3; dlt <= 3; dlt++ ) if ( x + dlt >= 0 and x + dlt < 1 << 19 ) lens.push_back( x + dlt );
      for ( long x = 0; x < n + 20; x++ ) lens.push_back( x );
      for ( long len : lens ) for ( int conceal = 0; conceal < 2; conceal++ ) {
        Bytes f = c->frame; const uint32_t t = flags | uint32_t( len ) << 5; f[ 0 ] = t; f[ 1 ] = t >> 8; f[ 2 ] = t >> 16;
        mc::describe( mc::fmt( "flags %lu, first partition length %ld, concealment %d", flags, len, conceal ) );
        present( *k, f, conceal );
      }
    }
    k->check( "afterwards", true );
  } );
  /* partitions full of two-byte patterns: the arithmetic decoder is driven through every extreme */
  mc::run( "patterns", 256, [&]( uint64_t a ) {
    static Keep * k = nullptr; if ( not k ) k = new Keep( b );
    for ( int c = 0; c < 256; c += mc::thorough() ? 1 : 5 ) for ( int key = 0; key < 2; key++ ) for ( int fill = 0; fill < 2; fill++ ) {
      const size_t first = 60, rest = 80; Bytes f;
      const uint32_t t = ( key ? 0x10 : 0x11 ) | first << 5; for ( int i = 0; i < 3; i++ ) f.push_back( t >> ( 8 * i ) );
      if ( key ) { const uint8_t z[] = { 0x9d, 1, 0x2a, uint8_t( b.w ), 0, uint8_t( b.h ), 0 }; f.insert( f.end(), z, z + 7 ); }
      for ( size_t i = 0; i < first + rest; i++ ) f.push_back( fill and i >= first ? 255 : i & 1 ? c : a );
      mc::describe( mc::fmt( "%s frame of bytes %lu %d, tokens %d", key ? "key" : "inter", a, c, fill ) );
      present( *k, f, false ); if ( mc::thorough() ) present( *k, f, true );
    }
    k->check( "afterwards", true );
  } );
}

/* in error-concealment mode: nothing is refused, and what arrived is used */
static void concealment()
{
  const int n = 16;
  for ( int v = 0; v < n; v++ ) {
    const bool key = v >= 12;
    Base b = make( key ? "key" : "inter", key, v % 3 == 2 ? 70 : 40, 72, v % 4, v );
    b.f.level = 0; b.f.lf_delta = b.f.lf_delta_update = false;
    Gen g = b.before; b.where.clear(); g.where = &b.where; vector<uint64_t> ends; g.tokens_end = &ends; b.frame = emit( b.f, g );
    b.first = ( b.frame[ 0 ] | b.frame[ 1 ] << 8 | b.frame[ 2 ] << 16 ) >> 5;
    /* the same frame without coefficients, and the reference's pictures */
    Frame bare = b.f; for ( auto & m : bare.mb ) { m.skip = true; for ( auto & c : m.c ) c.fill( 0 ); } bare.skip_enabled = true; bare.prob_skip = 1;
    Gen gb = b.before; const Bytes bare_bytes = emit( bare, gb );
    auto reference = [&]( const Bytes * f, Picture & p, bool & ok ) {
      VpxDecoder d; Picture q; for ( auto & x : b.prefix ) { if ( d.decode( x ) ) throw std::logic_error( "prefix" ); d.get( q ); }
      Frame pr = probe( b.w, b.h, 1 ); Gen gp; Bytes pb = emit( pr, gp );
      ok = d.decode( f ? *f : pb ) == 0; if ( ok and not d.get( p ) ) ok = false;
    };
    Picture as_sent, without, last; bool ok;
    reference( &b.frame, as_sent, ok ); if ( not ok ) throw std::logic_error( "frame" );
    reference( &bare_bytes, without, ok ); if ( not ok ) throw std::logic_error( "bare frame" );
    reference( nullptr, last, ok ); if ( not ok ) throw std::logic_error( "probe" );
    const size_t tokens = b.header + b.first, parts = size_t( 1 ) << b.f.log2parts;
    vector<size_t> start; size_t at = tokens + 3 * ( parts - 1 );
    for ( size_t p = 0; p + 1 < parts; p++ ) { start.push_back( at ); const uint8_t * l = &b.frame[ tokens + 3 * p ]; at += l[ 0 ] | l[ 1 ] << 8 | l[ 2 ] << 16; } start.push_back( at );
    mc::run( "concealment " + std::to_string( v ) + ": " + b.name, b.frame.size() + 1, [&]( uint64_t len ) {
      static Keep * k = nullptr; static int of = -1;
      if ( of != v ) of = v, k = new Keep( b );
      const Bytes cut( b.frame.begin(), b.frame.begin() + len );
      mc::describe( b.name + mc::fmt( ", cut to %lu of %zu bytes (header %zu, first partition %zu), concealing", len, b.frame.size(), b.header, b.first ) );
      Picture p; std::pair<bool, uint64_t> o;
      const uint64_t arrived = len <= b.header ? 0 : len - b.header;
      const bool accepted = present( *k, cut, true, &o, &p );
      if ( arrived and 2 + b.where[ 0 ] / 8 > arrived ) { mc::count( 6 ); return; }   /* the frame's own header is damaged: anything may be in it */
      mc::require( accepted, "refused in error-concealment mode: " + refusal );
      if ( len >= 3 ) mc::require( o.first == b.f.show, "shown flag" );
      auto same = [&]( const Picture & e, unsigned x0, unsigned y0, unsigned x1, unsigned y1, const string & what ) {
        for ( unsigned y = y0; y < y1 and y < p.h; y++ ) for ( unsigned x = x0; x < x1 and x < p.w; x++ ) {
          const unsigned cw = ( p.w + 1 ) / 2, ci = ( y / 2 ) * cw + x / 2;
          mc::require( p.y[ y * p.w + x ] == e.y[ y * p.w + x ] and p.u[ ci ] == e.u[ ci ] and p.v[ ci ] == e.v[ ci ], what + mc::fmt( ": pixel (%u,%u)", x, y ) );
        }
        mc::count( 2 );
      };
      const unsigned W = b.f.mbw(), H = b.f.mbh();
      if ( len == b.frame.size() ) { same( as_sent, 0, 0, p.w, p.h, "intact frame" ); return; }
      if ( len < tokens + 1 ) {
        const uint64_t have = len <= b.header ? 0 : len - b.header;
        for ( unsigned i = 0; i < W * H; i++ ) {
          const unsigned x = i % W * 16, y = i / W * 16;
          if ( len >= b.header and 2 + b.where[ i + 1 ] / 8 <= have ) { same( without, x, y, x + 16, y + 16, mc::fmt( "macroblock %u, whose header arrived", i ) ); mc::count( 3 ); }
          else if ( len < b.header or ( not key and b.where[ i ] / 8 > have ) ) /* macroblocks of key frames are not concealed */ { same( last, x, y, x + 16, y + 16, mc::fmt( "macroblock %u, whose header is lost,", i ) ); mc::count( 4 ); }
        }
        return;
      }
      /* the macroblocks up to the first whose coefficients may be missing are as sent */
      for ( unsigned i = 0; i < W * H; i++ ) {
        const size_t part = ( i / W ) % parts, end = part + 1 < parts ? start[ part + 1 ] : b.frame.size();
        const uint64_t have = len <= start[ part ] ? 0 : std::min( len, end ) - start[ part ];
        const bool none = len < start[ 0 ] or ( b.f.skip_enabled and b.f.mb[ i ].skip );
        if ( len < start[ 0 ] ? true : not none and 2 + ends[ i ] / 8 > have ) break;
        same( as_sent, i % W * 16, i / W * 16, i % W * 16 + 16, i / W * 16 + 16, mc::fmt( "macroblock %u, which arrived", i ) ); mc::count( 5 );
      }
    }, 4 );
  }
  /* intact frames are decoded the same in both modes */
  const auto A = alphabet( 40, 24 );
  const int depth = mc::thorough() ? 3 : 2; uint64_t total = 1; for ( int i = 0; i < depth; i++ ) total *= A.size();
  mc::run( "intact sequences, concealing", total, [&]( uint64_t i ) {
    Stream s = sequence( i, depth, A, 40, 24 ); string d; for ( auto & x : s.names ) d += x + "; "; mc::describe( d );
    Decoder a( 40, 24 ), b( 40, 24 ); b.set_error_concealment( true );
    for ( auto & f : s.frames ) {
      auto x = a.get_frame_output( Chunk( f ) ), y = b.get_frame_output( Chunk( f ) ); mc::transition( 2 );
      mc::require( x.first == y.first and raster_digest( x.second ) == raster_digest( y.second ) and a.get_hash().hash() == b.get_hash().hash(), "an intact frame is decoded differently in error-concealment mode" );
    }
  }, 8 );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv ); mc::case_timeout = 60;
  const bool light = mc::only == "conceal";
  if ( not light ) { const vector<Base> B = bases(); substitutions( B ); pairs( B ); cuts( B ); short_and_patterned( B ); }
  else concealment();
  return mc::finish( { { "frames accepted", mc::S->counters[ 0 ].load() }, { "frames refused", mc::S->counters[ 1 ].load() }, { "regions compared", mc::S->counters[ 2 ].load() },
    { "macroblocks that arrived", mc::S->counters[ 3 ].load() }, { "macroblocks concealed", mc::S->counters[ 4 ].load() }, { "macroblocks that arrived with coefficients", mc::S->counters[ 5 ].load() } } );
}
