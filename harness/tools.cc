/* P26: the programs that take streams apart (xc-dissect, xc-zero-out-residues) or play them as a camera would (fake-webcam).
   Their own main functions (renamed) run in processes of their own. Oracles: the text and the stream that follow from the
   syntax elements of which our generator made the frames; the reference decoder; a virtual clock. */
#include "programs.hh"
#include "alf.hh"
#include "vpxref.hh"
#include "corpus.hh"
#include "encpics.hh"
#include "enc_state_serializer.hh"
#include <dlfcn.h>
typedef vp8::Frame VFrame; using vp8::MB; using vp8::MBInfo; using vp8::Gen; using vp8::OptI;
int dissect_main( int, char ** );
int zero_main( int, char ** );
extern "C" int webcam_main( int, char ** );

/* ---- what the report must say ---- */
static string head( const string & k, int level = 0 ) { string s = string( 2 * level, ' ' ) + k + ": "; s.resize( max<size_t>( s.size(), 25 ), ' ' ); return s; }
static string line( const string & k, int v, int level = 0 ) { return head( k, level ) + to_string( v ) + "\n"; }
static string six( const OptI & o ) { return o.on ? fmt( "%6d", o.v ) : fmt( "%6s", "X" ); }
static const char * YM[] = { "DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED", "NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV" };
static const char * BM[] = { "B_DC_PRED", "B_TM_PRED", "B_VE_PRED", "B_HE_PRED", "B_LD_PRED", "B_RD_PRED", "B_VR_PRED", "B_VL_PRED", "B_HD_PRED", "B_HU_PRED" };
static const char * SM[] = { "LEFT4X4", "ABOVE4X4", "ZERO4X4", "NEW4X4" };
static const char * RF[] = { "CURRENT_FRAME", "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME" };
static const int ZIGZAG[16] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };

static string levels( const VFrame & f, const MB & m, int block, int first )
{
  if ( f.skip_enabled and m.skip ) return "";
  int v[16] {}; bool any = false; for ( int i = first; i < 16; i++ ) { v[ ZIGZAG[ i ] ] = m.c[ block ][ i ]; any |= m.c[ block ][ i ] != 0; }
  if ( not any ) return "";
  string s; for ( int i = 0; i < 16; i++ ) s += ( i ? ", " : "" ) + to_string( v[ i ] );
  return "DCT coeffs: { " + s + " }\n";
}
static string planes( const VFrame & f, const MB & m, const char * name, int base, int side, bool inter, bool coefs, const function<string( int )> & mode, bool y2 )
{
  string s = string( "<" ) + name + ">\n";
  (void)inter;
  for ( int b = 0; b < side * side; b++ ) {
    if ( b == 0 ) s += mode( -1 ) + "\n";
    s += fmt( "%s Subblock [ %d, %d ]\n", name, b % side, b / side ) + mode( b );
    if ( coefs ) { const string l = levels( f, m, base + b, y2 ? 1 : 0 ); s += l.empty() ? "ALL ZERO\n" : l + "\n"; }
  }
  return s;
}
/* the report on one frame; census: what its macroblocks' vectors came to */
static string expected( const VFrame & f, const vector<MBInfo> & census, size_t number, size_t bytes, bool probs, bool mbs, bool coefs )
{
  string s = fmt( ">> Frame #%zu %s\n   Size: %zu B\n", number, f.key ? "(KF)" : "(IF)", bytes );
  if ( probs ) {
    s += "[Probability Tables]\n";
    for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) {
      s += fmt( "[ %d, %d, %d ] = { ", i, j, k );
      for ( int l = 0; l < 11; l++ ) { const vp8::CoefUpd * u = nullptr; for ( auto & x : f.coef ) if ( x.i == i and x.j == j and x.k == k and x.l == l ) u = &x; s += ( u ? to_string( u->v ) : "-" ) + "\t"; }
      s += " }\n";
    }
    s += "\n";
  }
  if ( not f.show ) s += "(hidden frame)\n";
  s += f.key ? "[Keyframe Header]\n" : "[Interframe Header]\n";
  if ( f.key ) s += line( "color_space", f.color_space ) + line( "clamping_type", f.clamping );
  s += line( "refresh_entropy_probs", f.refresh_entropy ) + line( "update_segmentation", f.seg ) + line( "filter_type", f.filter_type ) + line( "mode_lf_adjustments", f.lf_delta );
  if ( f.lf_delta ) {
    s += line( "lf_delta_update", f.lf_delta_update, 1 );
    if ( f.lf_delta_update ) {
      s += head( "ref_update", 2 ); for ( auto & x : f.lf_ref ) s += six( x ); s += "\n";
      s += head( "mode_update", 2 ); for ( auto & x : f.lf_mode ) s += six( x ); s += "\n";
    }
  }
  s += line( "loop_filter_level", f.level ) + line( "sharpness_level", f.sharp ) + line( "mb_no_skip_coeff", f.skip_enabled );
  if ( f.skip_enabled ) s += line( "prob_skip_false", f.prob_skip );
  if ( not f.key ) {
    s += "\n"; s.pop_back();
    s += line( "refresh_last", f.refresh_last ) + line( "refresh_golden_frame", f.refresh_golden ) + line( "refresh_alternate_frame", f.refresh_alt );
    s += line( "prob_inter", f.prob_intra ) + line( "prob_last", f.prob_last ) + line( "prob_golden", f.prob_golden );
    s += line( "16x16_prob_update", f.y_prob_update );
    if ( f.y_prob_update ) { s += head( "16x16_prob", 1 ); for ( int v : f.y_prob ) s += fmt( "%6d", v ); s += "\n"; }
    s += line( "chroma_prob_update", f.uv_prob_update );
    if ( f.uv_prob_update ) { s += head( "chroma_prob", 1 ); for ( int v : f.uv_prob ) s += fmt( "%6d", v ); s += "\n"; }
    s += head( "mv_prob_update" );
    for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) { const OptI & o = f.mv_prob[ i ][ j ]; s += ( o.on ? to_string( o.v ? o.v << 1 : 1 ) : "-" ); if ( i == 0 or j != 18 ) s += "|"; }
    s += "\n";
  }
  s += fmt( "\n[Quantizer]\ny_ac_qi = %d\n", f.q );
  static const char * qn[] = { "y_dc    = ", "y2_dc   = ", "y2_ac   = ", "uv_dc   = ", "uv_ac   = " };
  for ( int i = 0; i < 5; i++ ) if ( f.qd[ i ].on ) s += qn[ i ] + to_string( f.qd[ i ].v ) + "\n";
  s += "\n";
  if ( not mbs ) return s;
  s += "[Macroblocks]\n";
  for ( int r = 0; r < f.mbh(); r++ ) for ( int c = 0; c < f.mbw(); c++ ) {
    const MB & m = f.mb[ r * f.mbw() + c ]; const MBInfo & I = census[ r * f.mbw() + c ]; const bool inter = not f.key and m.ref; const bool y2 = inter ? m.mvmode != vp8::SPLIT : m.ymode != vp8::B;
    s += fmt( "Macroblock [ %d, %d ]\n", c, r );
    s += planes( f, m, "Y", 0, 4, inter, coefs, [&]( int b ) -> string {
      if ( b < 0 ) {
        string t = string( "Prediction Mode: " ) + YM[ inter ? 5 + m.mvmode : m.ymode ] + "\n";
        if ( inter ) t += fmt( "Base Motion Vector: ( %d, %d )\nReference: %s\n", I.mv.col, I.mv.row, RF[ m.ref ] );
        return t;
      }
      if ( y2 ) return "";
      return string( "Prediction Mode: " ) + ( inter ? SM[ m.sub[ vp8::split_map[ m.split ][ b ] ] ] : BM[ m.bmodes[ b ] ] ) + "\n";
    }, y2 );
    if ( coefs and y2 ) { const string l = levels( f, m, 24, 0 ); s += "<Y2>\n" + ( l.empty() ? string( "ALL ZERO\n" ) : l ) + "\n"; }
    auto uv = [&]( int b ) -> string { return b < 0 and not inter ? string( "Prediction Mode: " ) + YM[ m.uvmode ] + "\n" : ""; };
    s += "\n"; s += planes( f, m, "U", 16, 2, inter, coefs, uv, false );
    s += "\n"; s += planes( f, m, "V", 20, 2, inter, coefs, uv, false );
    s += "\n";
  }
  return s;
}
static void same_text( const string & got, const string & want, const string & what )
{
  if ( got == want ) return;
  size_t k = 0, from = 0; while ( k < got.size() and k < want.size() and got[ k ] == want[ k ] ) { if ( got[ k ] == '\n' ) from = k + 1; k++; }
  auto cut = [&]( const string & s ) { return s.size() < from ? string() : s.substr( from, min( s.find( '\n', from ) - from, size_t( 150 ) ) ); };
  mc::fail( what + ": \"" + cut( got ) + "\" instead of \"" + cut( want ) + "\"" );
}

struct Made { vector<VFrame> frames; vector<Bytes> bytes; vector<vector<MBInfo>> census; };
static Made make( const vector<VFrame> & f )
{
  Made m; Gen g; vector<MBInfo> c; g.census = &c;
  for ( auto & x : f ) { m.bytes.push_back( vp8::emit( x, g ) ); m.frames.push_back( x ); m.census.push_back( c ); }
  return m;
}
static void dissected( const Made & m, int w, int h, int options, int which = -1, const string & state = "", size_t skip = 0 )
{
  const vector<Bytes> b( m.bytes.begin() + skip, m.bytes.end() );
  Mem in( ivf( b, w, h ) ), st( state ); string out; vector<string> a;
  static const char * names[3][2] = { { "-p", "--probability-tables" }, { "-m", "--macroblocks" }, { "-c", "--coefficients" } };
  for ( int k = 0; k < 3; k++ ) if ( options >> k & 1 ) a.push_back( names[ k ][ options >> 3 & 1 ] );
  if ( which >= 0 ) { a.push_back( "-f" ); a.push_back( to_string( which ) ); }
  if ( state.size() ) { a.push_back( "-s" ); a.push_back( st.path ); }
  a.push_back( in.path );
  must( tool( dissect_main, a, &out ), "xc-dissect" );
  string want; for ( size_t k = skip; k < m.frames.size(); k++ ) if ( which < 0 or k - skip == size_t( which ) ) want += expected( m.frames[ k ], m.census[ k ], k - skip, m.bytes[ k ].size(), options & 1, options >> 1 & 1, options >> 2 & 1 );
  same_text( out, want, "xc-dissect" );
  mc::state( mc::hash_bytes( want.data(), want.size() ) );
}

/* ---- taking the residues away ---- */
static void emptied( const Made & m, int w, int h )
{
  Mem in( ivf( m.bytes, w, h ) ), out;
  must( tool( zero_main, { in.path, out.path } ), "xc-zero-out-residues" );
  const Clip c = clip( out.bytes(), "xc-zero-out-residues' output" );
  mc::require( c.w == unsigned( w ) and c.h == unsigned( h ), "xc-zero-out-residues changes the size of the pictures" );
  mc::require( c.frames.size() == m.bytes.size(), "xc-zero-out-residues changes the number of frames" );
  vector<VFrame> z = m.frames;
  for ( auto & f : z ) if ( not f.key ) for ( auto & x : f.mb ) { for ( auto & l : x.c ) l.fill( 0 ); x.skip = true; }
  const Made want = make( z );
  VpxDecoder a, b; Decoder p( w, h ), q( w, h );
  for ( size_t k = 0; k < z.size(); k++ ) {
    mc::require( b.decode( want.bytes[ k ] ) == 0, "the reference decoder rejects the expected frame" );
    mc::require( a.decode( c.frames[ k ] ) == 0, fmt( "frame %zu of the output is not a frame", k ) );
    Picture x, y; const bool sx = a.get( x ), sy = b.get( y );
    mc::require( sx == sy, fmt( "frame %zu of the output is shown, or not, unlike the original", k ) );
    if ( sx ) { const string d = picture_diff( x, y ); mc::require( d.empty(), fmt( "frame %zu of the output is not the frame without its residue: ", k ) + d ); }
    p.get_frame_output( Chunk( c.frames[ k ] ) ); q.get_frame_output( Chunk( want.bytes[ k ] ) );
    mc::require( p.get_state() == q.get_state(), fmt( "frame %zu of the output leaves other probabilities, segments or filter adjustments", k ) );
    mc::require( refs_digest( p.get_references() ) == refs_digest( q.get_references() ), fmt( "frame %zu of the output leaves other references", k ) );
    mc::state( mc::mix( q.get_hash().hash(), refs_digest( q.get_references() ) ) );
  }
  /* and says everything else that the original says */
  Mem o2( ivf( c.frames, w, h ) ); string text; must( tool( dissect_main, { "-p", "-m", "-c", o2.path }, &text ), "xc-dissect of the output" );
  string say; for ( size_t k = 0; k < z.size(); k++ ) say += expected( z[ k ], want.census[ k ], k, c.frames[ k ].size(), true, true, true );
  same_text( text, say, "the output of xc-zero-out-residues" );
}
static void deviations()
{
  const bool T = mc::thorough();
  for ( auto size : { pair<int, int> { 35, 20 }, pair<int, int> { 16, 16 } } ) {
    const int w = size.first, h = size.second; if ( w == 16 and not T ) continue;
    static vector<vector<vp8::Corpus>> keep; keep.push_back( vp8::corpora( w, h, T ? 5 : 51, T ? 3 : 29, T ) );
    /* levels are many and alike: fewer of them */
    if ( not T ) for ( auto & c : keep.back() ) { vp8::Devs few; int n = 0, k = 0; for ( auto & d : c.devs ) if ( d.name.find( "coef" ) != string::npos ? n++ % 5 == 0 : d.name.compare( 0, 2, "mb" ) or k++ % 2 == 0 ) few.push_back( d ); c.devs = few; }
    for ( auto & c : keep.back() ) mc::run( fmt( "%s frame one deviation away, %dx%d", c.base.key ? "key" : "inter", w, h ), c.size() * 2, [&]( uint64_t i ) {
      const bool zero = i & 1; i /= 2; mc::describe( c.label( i ) + ( zero ? ", residues removed" : ", dissected" ) );
      vector<VFrame> f = c.before; f.push_back( c.chosen( i ) ); f.push_back( vp8::noisy_inter( w, h, 9 ) );
      const Made m = make( f );
      if ( zero ) emptied( m, w, h ); else dissected( m, w, h, 7 );
      if ( i % 997 == 5 ) mc::sample( c.label( i ) );
    }, 2 );
  }
}
static void sequences()
{
  const bool T = mc::thorough(); const int w = 32, h = 16, D = T ? 3 : 2; static auto A = vp8::alphabet( w, h );
  uint64_t n = 1; for ( int k = 0; k < D; k++ ) n *= A.size();
  auto frames = [&]( uint64_t & i, string & nm ) { mc::Digits d( i ); vector<VFrame> f; for ( int k = 0; k < D; k++ ) { auto & a = A[ d( A.size() ) ]; if ( f.empty() and not a.second.key ) f.push_back( vp8::noisy_key( w, h, 503, 5 ) ); f.push_back( a.second ); nm += ( nm.empty() ? "" : ", " ) + a.first; } f.push_back( vp8::noisy_inter( w, h, 77 ) ); return f; };
  mc::run( fmt( "sequences of %d frames of an alphabet of %zu", D, A.size() ), n * 2, [&]( uint64_t i ) {
    const bool zero = i & 1; i /= 2; string nm; const Made m = make( frames( i, nm ) ); mc::describe( nm + ( zero ? ", residues removed" : ", dissected" ) );
    if ( zero ) emptied( m, w, h ); else dissected( m, w, h, 7 );
  }, 4 );
  mc::run( "every option, every frame asked for, continued from a state", A.size() * 16 * 6 * 2 * 2, [&]( uint64_t i ) {
    mc::Digits d( i ); auto & a = A[ d( A.size() ) ]; const int options = d( 16 ), which = int( d( 6 ) ) - 1; const bool saved = d( 2 ), hidden = d( 2 );
    mc::describe( fmt( "key, inter, %s%s, inter; options %d, frame %d%s", a.first.c_str(), hidden ? " hidden" : "", options, which, saved ? ", from a saved state" : "" ) );
    VFrame x = a.second; x.show = not hidden;
    const Made m = make( { vp8::noisy_key( w, h, 503, 5 ), A[ 6 ].second, x, vp8::noisy_inter( w, h, 77 ) } );
    const size_t skip = saved ? 2 : 0; string state;
    if ( saved ) { Decoder dec( w, h ); for ( size_t k = 0; k < skip; k++ ) dec.get_frame_output( Chunk( m.bytes[ k ] ) ); EncoderStateSerializer o; dec.serialize( o ); Mem s; o.write( s.path ); state = s.bytes(); }
    dissected( m, w, h, options, which, state, skip );
  }, 8 );
  const int top = T ? 50 : 34;
  mc::run( fmt( "every size up to %dx%d", top, top ), top * top, [&]( uint64_t i ) {
    const int W = 1 + i % top, H = 1 + i / top; mc::describe( fmt( "%dx%d", W, H ) );
    const Made m = make( { vp8::noisy_key( W, H, 3, 5 ), vp8::noisy_inter( W, H, 9 ), vp8::noisy_inter( W, H, 19 ) } );
    mc::isolated( [&] { dissected( m, W, H, 7 ); emptied( m, W, H ); } );
  }, 4 );
}

/* ---- a clip played as a camera would ---- */
static bool virtual_time = false; static int64_t clock_ns = 0;
static vector<pair<int64_t, string>> writes; static vector<int64_t> costs; static size_t pieces = 0, pictures = 0;
extern "C" int clock_gettime( clockid_t id, timespec * t )
{
  if ( virtual_time ) { t->tv_sec = clock_ns / 1000000000; t->tv_nsec = clock_ns % 1000000000; return 0; }
  return syscall( SYS_clock_gettime, id, t );
}
extern "C" int nanosleep( const timespec * t, timespec * left )
{
  if ( virtual_time ) { clock_ns += t->tv_sec * 1000000000ll + t->tv_nsec; return 0; }
  return syscall( SYS_nanosleep, t, left );
}
extern "C" int clock_nanosleep( clockid_t id, int flags, const timespec * t, timespec * left )
{
  if ( virtual_time ) { const int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec; clock_ns = flags & TIMER_ABSTIME ? max( clock_ns, v ) : clock_ns + v; return 0; }
  const long r = syscall( SYS_clock_nanosleep, id, flags, t, left ); return r < 0 ? errno : 0;
}
extern "C" ssize_t write( int fd, const void * p, size_t n )
{
  if ( virtual_time and fd == 1 ) {
    if ( n >= 6 and not memcmp( p, "FRAME\n", 6 ) ) { const size_t k = pictures++; if ( k < costs.size() ) { writes.emplace_back( clock_ns, string( static_cast<const char *>( p ), n ) ); clock_ns += costs[ k ]; return n; } }
    n = pieces ? min( n, pieces ) : n; writes.emplace_back( clock_ns, string( static_cast<const char *>( p ), n ) ); return n; }
  return syscall( SYS_write, fd, p, n );
}
static void played( int w, int h, unsigned fps, unsigned n, size_t piece, const vector<int64_t> & cost )
{
  string file = fmt( "YUV4MPEG2 W%d H%d F24:1 Ip A1:1 C420jpeg\n", w, h ), want; size_t len = 0;
  for ( unsigned k = 0; k < n; k++ ) { string b = "FRAME\n"; len = 6 + w * h + 2 * ( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ); for ( size_t x = 6; x < len; x++ ) b += char( mc::mix( k + 1, x ) ); want += b; }
  Mem in( file + want ); string rate = to_string( fps ); char * a[] = { const_cast<char *>( "fake-webcam" ), &in.path[ 0 ], &rate[ 0 ], nullptr };
  const int64_t start = 1700000000123456789ll, interval = int64_t( 1e6 / fps ) * 1000; clock_ns = start; pieces = piece; costs = cost; virtual_time = true;
  const int rc = webcam_main( 3, a ); virtual_time = false;
  mc::require( rc == 0, fmt( "fake-webcam ends with status %d", rc ) );
  string all; vector<pair<size_t, int64_t>> at; for ( auto & x : writes ) { at.push_back( { all.size(), x.first } ); all += x.second; mc::transition(); }
  if ( n == 0 ) { mc::require( all.empty(), "something is written although there is no picture" ); return; }
  const size_t e = all.find( '\n' ); mc::require( e != string::npos, "no header" ); const string hd = all.substr( 0, e ) + " ";
  for ( const string & s : { string( "YUV4MPEG2 " ), fmt( " W%d ", w ), fmt( " H%d ", h ), fmt( " F%u:1 ", fps ) } ) mc::require( hd.find( s ) != string::npos, "the header \"" + hd + "\" lacks \"" + s + "\"" );
  mc::require( all.substr( e + 1 ) == want, "other pictures are written than read" );
  int64_t free_at = start; size_t last = SIZE_MAX; int64_t due = start;
  for ( auto & x : at ) {
    if ( x.first <= e ) { mc::require( x.second == start, "the header is not written at once" ); continue; }
    const size_t k = ( x.first - e - 1 ) / len;
    if ( k != last ) { due = max( start + int64_t( k ) * interval, free_at ); free_at = due + ( k < cost.size() ? cost[ k ] : 0 ); last = k; mc::require( llabs( x.second - due ) < 1000, fmt( "picture %zu is written %ld ns after the first, not %ld", k, long( x.second - start ), long( due - start ) ) ); }
    else mc::require( llabs( x.second - free_at ) < 1000, fmt( "picture %zu is interrupted", k ) );
  }
  mc::state( mc::hash_bytes( all.data(), all.size() ) );
}
static void webcam()
{
  const bool T = mc::thorough();
  static const unsigned FPS[] = { 1, 5, 24, 25, 30, 60, 120, 1000 };
  struct Pic { int w, h; }; static const Pic P[] = { { 16, 16 }, { 32, 16 }, { 7, 5 }, { 50, 34 } };
  const unsigned D = T ? 6 : 5;
  mc::run( fmt( "clips of 0 to %u pictures played, 8 rates, 4 sizes, writes in pieces", D - 1 ), 8 * 4 * D * 4, [&]( uint64_t i ) {
    mc::Digits d( i ); const unsigned fps = FPS[ d( 8 ) ]; const Pic z = P[ d( 4 ) ]; const unsigned n = d( D ); static const size_t PIECES[] = { 0, 1, 100, 1000 }; const size_t piece = PIECES[ d( 4 ) ];
    mc::describe( fmt( "%u pictures of %dx%d at %u per second, writes of %zu bytes", n, z.w, z.h, fps, piece ) );
    mc::isolated( [&] { played( z.w, z.h, fps, n, piece, {} ); } );
  }, 8 );
  uint64_t n = 1; for ( unsigned k = 0; k < D; k++ ) n *= 5;
  mc::run( fmt( "clips of %u pictures taken off slowly", D ), n * 3, [&]( uint64_t i ) {
    mc::Digits d( i ); const unsigned fps = FPS[ 2 * d( 3 ) ]; static const int C[] = { 0, 30, 100, 130, 250 }; vector<int64_t> cost; string nm;
    for ( unsigned k = 0; k < D; k++ ) { const int c = C[ d( 5 ) ]; cost.push_back( int64_t( 1e6 / fps ) * 10 * c ); nm += fmt( " %d%%", c ); }
    mc::describe( fmt( "%u pictures at %u per second, taking", D, fps ) + nm + " of the interval" );
    mc::isolated( [&] { played( 16, 16, fps, D, 0, cost ); } );
  }, 16 );
}

int main( int argc, char ** argv )
{
  mc::init( argc, argv );
  deviations(); sequences(); webcam();
  return mc::finish();
}
