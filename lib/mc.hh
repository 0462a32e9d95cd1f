/* Exhaustive exploration of indexed execution spaces, in parallel worker processes.
   A space is a number n and a function that runs execution i of n on the real code; every i is run.
   A worker that dies (signal, uncaught exception, sanitizer report) or hangs is a violation of the
   execution it was in. Distinct states are counted in a shared hash table. */
#ifndef MC_HH
#define MC_HH
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <malloc.h>
#include <signal.h>
#include <stdexcept>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
  h ^= h >> 31; h *= 0x7fb5d329728ea185ull; h ^= h >> 27; h *= 0x81dadef4bc2dd44dull; h ^= h >> 33;
  return h;
}
inline uint64_t hash_bytes( const void * p, size_t n, uint64_t h = 0x1234567 )
{
  const uint8_t * b = static_cast<const uint8_t *>( p );
  while ( n >= 8 ) { uint64_t v; memcpy( &v, b, 8 ); h = mix( h, v ); b += 8; n -= 8; }
  uint64_t v = n + 1; while ( n-- ) v = v * 257 + *b++;
  return mix( h, v );
}

static const size_t TABLE = 1u << 23;
static const int MAXW = 64;
static const int MAXV = 12;
struct Shared {
  std::atomic<uint64_t> next, executions, transitions, distinct, nontrivial;
  std::atomic<uint64_t> counters[32];
  std::atomic<int> violations, samples, stop;
  char vtext[MAXV][1600];
  char sample[8][700];
  struct W { std::atomic<uint64_t> index, digest; std::atomic<int64_t> since; char space[96]; char what[1400]; } w[MAXW];
  std::atomic<uint64_t> table[TABLE];
};
static Shared * S = nullptr;
static int self = 0;
static std::string prop = "P00", tier = "quick", outfile, replay_dir = ".";
static bool replaying = false;
static std::string replay_space; static uint64_t replay_index = 0;
static double t_start = 0;
static int case_timeout = 120;
static const unsigned PREPARATION = 400;   /* seconds for what a harness does before and between its spaces */
static double budget = 1e9;      /* seconds; only spaces run with may_truncate honour it */
static std::string notes;        /* description of every space that was run */
static bool exhaustive = true;
/* two builds compared: one writes the digest of every execution (--digests-out FILE), the other reads them */
static std::atomic<uint64_t> * digests = nullptr; static bool digests_in = false; static uint64_t digest_base = 0;
static const uint64_t DIGESTS = 1u << 25;
static std::string only;         /* --set=NAME: the part of the harness this run explores */

inline double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool thorough() { return tier == "thorough"; }

/* a violation of the property in the execution that is running */
struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string fmt( const char * f, ... )
{
  char b[4096]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a ); return b;
}
[[noreturn]] inline void fail( const std::string & s ) { throw Violation( s ); }
inline void require( bool ok, const std::string & s ) { if ( not ok ) fail( s ); }

inline void transition( uint64_t n = 1 ) { S->transitions += n; }
inline void count( int i, uint64_t n = 1 ) { S->counters[ i ] += n; }
/* returns true when the state is new */
inline bool state( uint64_t h )
{
  if ( h == 0 ) h = 1;
  size_t i = h % TABLE;
  for ( int k = 0; k < 64; k++, i = ( i + 1 ) % TABLE ) {
    uint64_t o = S->table[ i ].load( std::memory_order_relaxed );
    if ( o == h ) return false;
    if ( o == 0 ) {
      if ( S->table[ i ].compare_exchange_strong( o, h ) ) { S->distinct++; return true; }
      if ( o == h ) return false;
    }
  }
  return true; /* table crowded: not counted */
}
inline void describe( const std::string & s )
{
  strncpy( S->w[ self ].what, s.c_str(), sizeof( S->w[ 0 ].what ) - 1 );
  if ( replaying ) fprintf( stderr, "execution: %s\n", s.c_str() );
}
inline void sample( const std::string & s )
{
  if ( S->samples.load() >= 8 ) return;
  int i = S->samples++;
  if ( i < 8 ) { strncpy( S->sample[ i ], s.c_str(), sizeof( S->sample[ 0 ] ) - 1 ); }
}
inline void add_violation( const std::string & s )
{
  int i = S->violations++;
  if ( i < MAXV ) strncpy( S->vtext[ i ], s.c_str(), sizeof( S->vtext[ 0 ] ) - 1 );
  if ( i >= 3 ) S->stop = 1;
}
inline std::string where( int w )
{
  return std::string( "space=" ) + S->w[ w ].space + " index=" + std::to_string( S->w[ w ].index.load() )
    + " execution: " + S->w[ w ].what;
}

/* no execution may fill the memory or the disk: more than these limits is an error of the code that was run */
inline void limit( int what, rlim_t bytes ) { rlimit l; if ( getrlimit( what, &l ) == 0 and ( l.rlim_cur == RLIM_INFINITY or l.rlim_cur > bytes ) ) { l.rlim_cur = bytes; setrlimit( what, &l ); } }
/* in a new process: it ends when its parent does */
inline void child() { prctl( PR_SET_PDEATHSIG, SIGKILL ); if ( getppid() == 1 ) _exit( 0 ); }

inline void init( int argc, char ** argv )
{
  limit( RLIMIT_FSIZE, rlim_t( 300 ) << 20 );
  alarm( PREPARATION );
  std::set_terminate( [] {
    try { if ( std::current_exception() ) std::rethrow_exception( std::current_exception() ); }
    catch ( const std::exception & e ) { fprintf( stderr, "exception: %s\n", e.what() ); }
    catch ( ... ) {}
    abort();
  } );
#if not defined( __SANITIZE_ADDRESS__ ) and not defined( __SANITIZE_THREAD__ )
  limit( RLIMIT_AS, rlim_t( 4 ) << 30 );
#endif
  t_start = now();
  mallopt( M_MMAP_THRESHOLD, 1 << 30 ); mallopt( M_TRIM_THRESHOLD, 1 << 30 ); mallopt( M_TOP_PAD, 1 << 24 );
  S = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if ( S == MAP_FAILED ) { perror( "mmap" ); exit( 2 ); }
  for ( int i = 1; i < argc; i++ ) {
    std::string a = argv[ i ];
    if ( a == "--probe" ) _exit( 0 );
    auto val = [&] { return i + 1 < argc ? std::string( argv[ ++i ] ) : std::string(); };
    if ( a == "--property" ) prop = val();
    else if ( a == "--tier" ) tier = val();
    else if ( a == "--out" ) outfile = val();
    else if ( a == "--budget" ) budget = atof( val().c_str() );
    else if ( a == "--digests-out" or a == "--digests-in" ) {
      digests_in = a == "--digests-in";
      const int fd = open( val().c_str(), O_RDWR | O_CREAT, 0644 );
      if ( fd < 0 or ftruncate( fd, DIGESTS * 8 ) ) { perror( "digests" ); exit( 2 ); }
      digests = static_cast<std::atomic<uint64_t> *>( mmap( nullptr, DIGESTS * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
      if ( digests == MAP_FAILED ) { perror( "mmap" ); exit( 2 ); }
      close( fd );
    }
    else if ( a.compare( 0, 5, "--set" ) == 0 ) only = a.substr( 6 );
    else if ( a == "--replay" ) { replaying = true; replay_space = val(); replay_index = strtoull( val().c_str(), nullptr, 10 ); }
  }
}

/* what the execution produced, for the comparison of two builds */
inline void digest( uint64_t h ) { S->w[ self ].digest = mix( S->w[ self ].digest, h ); }

inline void run_one( const std::function<void( uint64_t )> & f, uint64_t i )
{
  S->w[ self ].index = i;
  S->w[ self ].what[ 0 ] = 0;
  S->w[ self ].since = (int64_t) now();
  S->w[ self ].digest = 1;
  try { f( i ); }
  catch ( const Violation & v ) { add_violation( where( self ) + " :: " + v.what() ); }
  catch ( const std::exception & e ) { add_violation( where( self ) + " :: unexpected exception: " + e.what() ); }
  catch ( ... ) { add_violation( where( self ) + " :: unexpected exception" ); }
  S->executions++;
  if ( digests ) {
    const uint64_t h = S->w[ self ].digest; auto & slot = digests[ digest_base + i ];
    if ( not digests_in ) slot = h;
    else if ( slot != h ) add_violation( where( self ) + fmt( " :: the two builds differ: digests %016lx and %016lx", slot.load(), h ) );
  }
}

/* runs f in a process of its own (fresh global state); what it reports is reported for the current execution */
inline void isolated( const std::function<void()> & f )
{
  fflush( nullptr );
  const pid_t p = fork();
  if ( p < 0 ) { perror( "fork" ); _exit( 2 ); }
  if ( p == 0 ) {
    child();
    try { f(); }
    catch ( const Violation & v ) { add_violation( where( self ) + " :: " + v.what() ); }
    catch ( const std::exception & e ) { add_violation( where( self ) + " :: unexpected exception: " + e.what() ); }
    catch ( ... ) { add_violation( where( self ) + " :: unexpected exception" ); }
    fflush( nullptr ); _exit( 0 );
  }
  int st = 0;
  while ( waitpid( p, &st, 0 ) < 0 and errno == EINTR ) {}
  if ( WIFSIGNALED( st ) and WTERMSIG( st ) == SIGKILL ) { fprintf( stderr, "child killed (memory?)\n" ); _exit( 2 ); }
  if ( WIFSIGNALED( st ) ) fail( fmt( "the process was killed by signal %d", WTERMSIG( st ) ) );
  if ( WEXITSTATUS( st ) ) fail( fmt( "the process ended with status %d", WEXITSTATUS( st ) ) );
}

/* runs every execution of the space; block: how many consecutive ones a worker takes at a time */
inline void run( const std::string & space, uint64_t n, const std::function<void( uint64_t )> & f,
                 uint64_t block = 1, bool may_truncate = false, int workers = 0 )
{
  struct Advance { uint64_t n; ~Advance() { digest_base += n; } } advance { n };
  if ( digest_base + n > DIGESTS ) { fprintf( stderr, "too many digests\n" ); exit( 2 ); }
  if ( replaying ) {
    if ( space != replay_space ) return;
    strncpy( S->w[ 0 ].space, space.c_str(), 95 );
    run_one( f, replay_index );
    return;
  }
  alarm( 0 ); struct Alarm { ~Alarm() { alarm( PREPARATION ); } } alarm_again;
  double t0 = now();
  uint64_t ex0 = S->executions.load();
  if ( workers == 0 ) workers = sysconf( _SC_NPROCESSORS_ONLN );
  if ( workers > MAXW ) workers = MAXW;
  if ( n < (uint64_t) workers ) workers = n ? n : 1;
  S->next = 0;
  std::vector<pid_t> pids( workers, -1 );
  auto spawn = [&]( int w ) {
    strncpy( S->w[ w ].space, space.c_str(), 95 );
    S->w[ w ].since = 0;
    fflush( nullptr );
    pid_t p = fork();
    if ( p < 0 ) { perror( "fork" ); exit( 2 ); }
    if ( p == 0 ) {
      child();
      self = w;
      if ( not getenv( "MC_VERBOSE" ) ) {
        int fd = open( "/dev/null", O_WRONLY ); if ( fd >= 0 ) { dup2( fd, 1 ); }
        std::string e = outfile + ".stderr" + std::to_string( w );
        int fe = open( e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( fe >= 0 ) dup2( fe, 2 );
      }
      while ( not S->stop.load() ) {
        uint64_t b = S->next.fetch_add( block );
        if ( b >= n ) break;
        if ( may_truncate and now() - t_start > budget ) { S->counters[ 31 ]++; break; }
        for ( uint64_t i = b; i < b + block and i < n and not S->stop.load(); i++ ) run_one( f, i );
      }
      fflush( nullptr );
      _exit( 0 );
    }
    pids[ w ] = p;
  };
  for ( int w = 0; w < workers; w++ ) spawn( w );
  int live = workers;
  while ( live > 0 ) {
    int st = 0;
    pid_t p = waitpid( -1, &st, WNOHANG );
    if ( p == 0 ) {
      usleep( 2000 );
      for ( int w = 0; w < workers; w++ ) {
        int64_t s = S->w[ w ].since.load();
        if ( pids[ w ] > 0 and s and (int64_t) now() - s > case_timeout ) {
          add_violation( where( w ) + fmt( " :: no result after %d s (hang)", case_timeout ) );
          S->stop = 1;
          kill( pids[ w ], SIGKILL );
        }
      }
      continue;
    }
    if ( p < 0 ) break;
    for ( int w = 0; w < workers; w++ ) {
      if ( pids[ w ] != p ) continue;
      pids[ w ] = -1; live--;
      if ( WIFEXITED( st ) and WEXITSTATUS( st ) == 0 ) continue;
      if ( WIFSIGNALED( st ) and WTERMSIG( st ) == SIGKILL ) {
        if ( not S->stop.load() ) { fprintf( stderr, "worker killed (memory?)\n" ); exit( 2 ); }
        continue;
      }
      std::string how = WIFSIGNALED( st ) ? fmt( "killed by signal %d", WTERMSIG( st ) ) : fmt( "exit status %d", WEXITSTATUS( st ) );
      std::string err; {
        FILE * fp = fopen( ( outfile + ".stderr" + std::to_string( w ) ).c_str(), "r" );
        if ( fp ) { char b[ 4096 ]; size_t k = fread( b, 1, sizeof b, fp ); err.assign( b, k ); fclose( fp ); }
        if ( err.size() > 500 ) err = err.substr( 0, 500 );
        for ( auto & c : err ) if ( c == '\n' ) c = ' ';
      }
      add_violation( where( w ) + " :: the process ended abnormally: " + how + " " + err );
      S->executions++;
      if ( not S->stop.load() ) { spawn( w ); live++; }
    }
  }
  for ( int w = 0; w < workers; w++ ) unlink( ( outfile + ".stderr" + std::to_string( w ) ).c_str() );
  uint64_t done = S->executions.load() - ex0;
  bool whole = done == n;
  if ( not whole ) exhaustive = false;
  notes += ( notes.empty() ? "" : "; " ) + space + ": " + std::to_string( done ) + " of " + std::to_string( n )
    + " executions in " + fmt( "%.1f", now() - t0 ) + " s";
}

inline std::string jstr( const std::string & s )
{
  std::string r = "\"";
  for ( unsigned char c : s ) {
    if ( c == '"' or c == '\\' ) { r += '\\'; r += c; }
    else if ( c == '\n' ) r += "\\n";
    else if ( c < 0x20 or c >= 0x7f ) r += fmt( "\\u%04x", c );
    else r += c;
  }
  return r + "\"";
}

/* writes the result file; returns the exit status */
inline int finish( const std::vector<std::pair<std::string, uint64_t>> & extra = {} )
{
  int v = S->violations.load();
  if ( replaying ) {
    for ( int i = 0; i < v and i < MAXV; i++ ) printf( "%s\n", S->vtext[ i ] );
    printf( v ? "replay: violation reproduced\n" : "replay: the property held on this execution\n" );
    return v ? 1 : 0;
  }
  FILE * f = outfile.empty() ? stdout : fopen( outfile.c_str(), "w" );
  if ( not f ) { perror( "out" ); return 2; }
  fprintf( f, "{\"executions\": %lu, \"transitions\": %lu, \"states\": %lu, \"exhaustive\": %s, \"wall_s\": %.2f,\n \"spaces\": %s,\n",
    S->executions.load(), S->transitions.load(), S->distinct.load(), exhaustive ? "true" : "false", now() - t_start, jstr( notes ).c_str() );
  for ( auto & e : extra ) fprintf( f, " %s: %lu,\n", jstr( e.first ).c_str(), e.second );
  fprintf( f, " \"samples\": [" );
  for ( int i = 0; i < 8 and i < S->samples.load(); i++ ) fprintf( f, "%s%s", i ? ",\n  " : "", jstr( S->sample[ i ] ).c_str() );
  fprintf( f, "],\n \"violations\": [" );
  for ( int i = 0; i < v and i < MAXV; i++ ) fprintf( f, "%s%s", i ? ",\n  " : "", jstr( S->vtext[ i ] ).c_str() );
  fprintf( f, "]}\n" );
  if ( f != stdout ) fclose( f );
  return v ? 1 : 0;
}

/* mixed-radix enumeration of a product */
struct Digits {
  uint64_t v;
  explicit Digits( uint64_t i ) : v( i ) {}
  uint64_t operator()( uint64_t radix ) { uint64_t d = v % radix; v /= radix; return d; }
};

/* A busy machine's kernel may defer, drop or reorder datagrams, which is not the code's doing: one processor keeps them in
   order, and an execution on the real network fails when it does so every time. */
template<class F> inline void on_real_network( const F & f )
{
  cpu_set_t all, one; CPU_ZERO( &one ); const int cpu = sched_getcpu();
  const bool pin = cpu >= 0 and sched_getaffinity( 0, sizeof all, &all ) == 0;
  if ( pin ) { CPU_SET( cpu, &one ); sched_setaffinity( 0, sizeof one, &one ); }
  for ( int attempt = 0; ; attempt++ ) {
    try { f(); break; } catch ( const std::exception & ) { if ( attempt == 6 ) throw; }
    usleep( 50000 << attempt );
  }
  if ( pin ) sched_setaffinity( 0, sizeof all, &all );
}

}
#endif
