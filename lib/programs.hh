/* Running the project's own programs (their main functions, renamed) in processes of their own on files in memory,
   and chunk files written and read independently of the code under test. */
#ifndef PROGRAMS_HH
#define PROGRAMS_HH
#include "mc.hh"
#include <getopt.h>
#include <iostream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace std;
using mc::fmt;
typedef vector<uint8_t> Bytes;

struct Mem {
  int fd; string path;
  Mem() : fd( syscall( SYS_memfd_create, "v", 0 ) ), path( "/proc/self/fd/" + to_string( fd ) ) { if ( fd < 0 ) { perror( "memfd" ); _exit( 2 ); } }
  template<class V> explicit Mem( const V & s ) : Mem() { size_t o = 0; while ( o < s.size() ) { ssize_t k = write( fd, &s[ o ], s.size() - o ); if ( k <= 0 ) _exit( 2 ); o += k; } lseek( fd, 0, SEEK_SET ); }
  Mem( const Mem & ) = delete;
  ~Mem() { close( fd ); }
  string bytes() const { struct stat st; fstat( fd, &st ); string s( st.st_size, 0 ); size_t o = 0; while ( o < s.size() ) { ssize_t k = pread( fd, &s[ o ], s.size() - o, o ); if ( k <= 0 ) _exit( 2 ); o += k; } return s; }
};

/* runs a program; its exit status, 99 when an exception leaves main, 1000 + n when it is killed by signal n */
static int tool( int ( *m )( int, char ** ), vector<string> args, string * out = nullptr, const string & in = "" )
{
  Mem i( in ), o;
  fflush( nullptr ); mc::transition();
  const pid_t p = fork(); if ( p < 0 ) { perror( "fork" ); _exit( 2 ); }
  if ( p == 0 ) {
    mc::child();
    int rc = 99;
    dup2( i.fd, 0 ); dup2( o.fd, 1 ); if ( not getenv( "MC_VERBOSE" ) ) { const int z = open( "/dev/null", O_WRONLY ); dup2( z, 2 ); }
    vector<char *> a { const_cast<char *>( "prog" ) }; for ( auto & s : args ) a.push_back( &s[ 0 ] ); a.push_back( nullptr );
    optind = 0;
    try { rc = m( a.size() - 1, a.data() ); } catch ( const exception & e ) { cerr << e.what() << endl; } catch ( ... ) {}
    cout.flush(); fflush( nullptr ); _exit( rc );
  }
  int st; while ( waitpid( p, &st, 0 ) < 0 and errno == EINTR ) {}
  if ( out ) *out = o.bytes();
  return WIFSIGNALED( st ) ? 1000 + WTERMSIG( st ) : WEXITSTATUS( st );
}
static void must( int rc, const string & what ) { if ( rc ) mc::fail( what + fmt( " ends with status %d", rc ) ); }

/* ---- formats, written and read independently ---- */
struct Clip { vector<Bytes> frames; uint32_t entry = 0; unsigned w = 0, h = 0; };
static string ivf( const vector<Bytes> & f, int w, int h )
{
  string s; auto le = [&]( uint64_t v, int n ) { while ( n-- ) { s += char( v ); v >>= 8; } };
  s += "DKIF"; le( 0, 2 ); le( 32, 2 ); s += "VP80"; le( w, 2 ); le( h, 2 ); le( 24, 4 ); le( 1, 4 ); le( f.size(), 4 ); le( 0, 4 );
  uint64_t t = 0; for ( auto & x : f ) { le( x.size(), 4 ); le( t++, 8 ); s.append( x.begin(), x.end() ); }
  return s;
}
static Clip clip( const string & s, const string & what )
{
  Clip c; auto le = [&]( size_t o, int n ) { uint64_t v = 0; while ( n-- ) v = v << 8 | uint8_t( s.at( o + n ) ); return v; };
  mc::require( s.size() >= 32 and s.substr( 0, 4 ) == "DKIF", what + ": not an IVF file" );
  c.w = le( 12, 2 ); c.h = le( 14, 2 ); c.entry = le( 28, 4 ); const uint64_t n = le( 24, 4 );
  size_t o = 32; for ( uint64_t k = 0; k < n; k++ ) { const size_t l = le( o, 4 ); o += 12; mc::require( o + l <= s.size(), what + ": frame beyond the end of the file" ); c.frames.emplace_back( s.begin() + o, s.begin() + o + l ); o += l; }
  mc::require( o == s.size(), what + ": bytes after the last frame" );
  return c;
}
#endif
