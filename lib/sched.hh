/* A controlled scheduler for threads of the real code: exactly one thread runs at a time; which one continues is decided
   at every lock operation (and, in the race-detecting build, at every atomic read-modify-write operation), by a plan that
   the explorer enumerates: at most so many preemptions at such and such points, and every choice when a thread ends or blocks.
   In the race-detecting build the scheduler's own hand-overs are invisible to the detector, so that only the program's
   own synchronisation orders accesses. */
#ifndef SCHED_HH
#define SCHED_HH
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "mc.hh"

#ifdef __SANITIZE_THREAD__
extern "C" { void __tsan_acquire( void * ); void __tsan_release( void * ); }
#define NOTSAN __attribute__(( no_sanitize_thread, noinline ))
#else
#define NOTSAN
static inline void __tsan_acquire( void * ) {}
static inline void __tsan_release( void * ) {}
#endif

namespace sched {
static const int MAXT = 4, MAXP = 8;
struct Thread { int go; bool live; const void * waiting; };
static Thread th[ MAXT ];
static int nthreads, current;
static volatile bool managing = false;
static bool atomic_points = false;
static __thread int me = -1;
/* the plan */
static int np, pstep[ MAXP ], ptarget[ MAXP ];
static uint64_t choices;
/* what happened, shared with the explorer's process */
struct Log { uint64_t steps, preemptions, blocked, choice; };
static Log * log_ = nullptr;

struct Lock { const void * addr; int owner, depth; };
static const int LOCKS = 1 << 14;
static Lock locks[ LOCKS ];
NOTSAN static Lock * lock_at( const void * a )
{
  size_t h = ( (size_t) a >> 3 ) * 0x9e3779b97f4a7c15ull >> 50;
  while ( locks[ h % LOCKS ].addr and locks[ h % LOCKS ].addr != a ) h++;
  Lock * l = &locks[ h % LOCKS ]; if ( not l->addr ) { l->addr = a; l->owner = -1; }
  return l;
}
NOTSAN static long fut( int * p, int op, int v ) { return syscall( SYS_futex, p, op, v, nullptr, nullptr, 0 ); }
NOTSAN static void wait_turn( int t )
{
  for ( int k = 0; __atomic_load_n( &th[ t ].go, __ATOMIC_ACQUIRE ) == 0; k++ ) if ( k > 200 ) fut( &th[ t ].go, FUTEX_WAIT_PRIVATE, 0 );
  __atomic_store_n( &th[ t ].go, 0, __ATOMIC_RELEASE );
}
NOTSAN static void give( int t ) { current = t; __atomic_store_n( &th[ t ].go, 1, __ATOMIC_RELEASE ); fut( &th[ t ].go, FUTEX_WAKE_PRIVATE, 1 ); }
NOTSAN static void switch_to( int t ) { const int m = me; if ( t == m ) return; give( t ); wait_turn( m ); }
NOTSAN static bool can_run( int t ) { return th[ t ].live and not th[ t ].waiting; }
/* a free choice: the running thread cannot go on */
NOTSAN static int choose()
{
  int r[ MAXT ], n = 0; for ( int t = 0; t < nthreads; t++ ) if ( can_run( t ) ) r[ n++ ] = t;
  if ( n == 0 ) return -1;
  if ( n == 1 ) return r[ 0 ];
  log_->choice++;
  const int c = choices % n; choices /= n; return r[ c ];
}
NOTSAN static void deadlock() { mc::add_violation( mc::where( mc::self ) + " :: deadlock: every thread waits for a lock" ); _exit( 0 ); }
NOTSAN static void point()
{
  const int s = log_->steps++;
  for ( int p = 0; p < np; p++ ) if ( pstep[ p ] == s ) {
    int k = ptarget[ p ];
    for ( int t = 0; t < nthreads; t++ ) if ( t != me and can_run( t ) and k-- == 0 ) { log_->preemptions++; switch_to( t ); return; }
  }
}
NOTSAN static bool managed() { return managing and me >= 0; }
NOTSAN static void lock( void * a, bool recursive )
{
  if ( not managed() ) { __tsan_acquire( a ); return; }
  point();
  Lock * l = lock_at( a );
  if ( l->owner == me and recursive ) { l->depth++; return; }
  while ( l->owner >= 0 ) {
    log_->blocked++;
    th[ me ].waiting = a;
    const int t = choose();
    if ( t < 0 ) deadlock();
    switch_to( t );
  }
  l->owner = me; l->depth = 1;
  __tsan_acquire( a );
}
NOTSAN static bool try_lock( void * a, bool recursive )
{
  if ( not managed() ) { __tsan_acquire( a ); return true; }
  point();
  Lock * l = lock_at( a );
  if ( l->owner == me and recursive ) { l->depth++; return true; }
  if ( l->owner >= 0 ) return false;
  l->owner = me; l->depth = 1; __tsan_acquire( a ); return true;
}
NOTSAN static void unlock( void * a )
{
  __tsan_release( a );
  if ( not managed() ) return;
  Lock * l = lock_at( a );
  if ( --l->depth > 0 ) return;
  l->owner = -1;
  for ( int t = 0; t < nthreads; t++ ) if ( th[ t ].waiting == a ) th[ t ].waiting = nullptr;
  /* where it is given up is a point too: what follows may happen before or after another thread takes it */
  point();
}
struct Start { int t; const std::function<void( int )> * f; };
NOTSAN static void enter( int t ) { me = t; wait_turn( t ); }
NOTSAN static void leave() { const int m = me; th[ m ].live = false; me = -1; const int t = choose(); if ( t >= 0 ) give( t ); else for ( int k = 0; k < nthreads; k++ ) if ( th[ k ].live ) deadlock(); }
static void * thread_main( void * p )
{
  const Start * s = static_cast<Start *>( p );
  enter( s->t );
  try { ( *s->f )( s->t ); }
  catch ( const mc::Violation & v ) { mc::add_violation( mc::where( mc::self ) + " :: thread " + std::to_string( s->t ) + ": " + v.what() ); }
  catch ( const std::exception & e ) { mc::add_violation( mc::where( mc::self ) + " :: thread " + std::to_string( s->t ) + ": unexpected exception: " + e.what() ); }
  leave();
  return nullptr;
}
/* runs f( 0 ) ... f( n - 1 ) as threads under the plan */
static void run_threads( int n, const std::function<void( int )> & f )
{
  nthreads = n; Start st[ MAXT ]; pthread_t id[ MAXT ];
  for ( int t = 0; t < n; t++ ) { th[ t ] = Thread(); th[ t ].live = true; st[ t ] = { t, &f }; }
  managing = true;
  for ( int t = 0; t < n; t++ ) if ( pthread_create( &id[ t ], nullptr, thread_main, &st[ t ] ) ) { perror( "thread" ); _exit( 2 ); }
  give( choose() );
  for ( int t = 0; t < n; t++ ) pthread_join( id[ t ], nullptr );
  managing = false;
}
}

extern "C" {
NOTSAN static bool mutex_recursive( pthread_mutex_t * m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP; }
NOTSAN int pthread_mutex_lock( pthread_mutex_t * m ) { sched::lock( m, mutex_recursive( m ) ); return 0; }
NOTSAN int pthread_mutex_trylock( pthread_mutex_t * m ) { return sched::try_lock( m, mutex_recursive( m ) ) ? 0 : EBUSY; }
NOTSAN int pthread_mutex_unlock( pthread_mutex_t * m ) { sched::unlock( m ); return 0; }
/* readers exclude each other here, which allows fewer schedules, never more */
NOTSAN int pthread_rwlock_rdlock( pthread_rwlock_t * m ) { sched::lock( m, true ); return 0; }
NOTSAN int pthread_rwlock_wrlock( pthread_rwlock_t * m ) { sched::lock( m, false ); return 0; }
NOTSAN int pthread_rwlock_unlock( pthread_rwlock_t * m ) { sched::unlock( m ); return 0; }
/* variables initialised on first use */
NOTSAN int __cxa_guard_acquire( uint64_t * g )
{
  if ( *(volatile char *) g ) { __tsan_acquire( g ); return 0; }
  sched::lock( g, false );
  if ( *(volatile char *) g ) { sched::unlock( g ); return 0; }
  return 1;
}
NOTSAN void __cxa_guard_release( uint64_t * g ) { *(volatile char *) g = 1; sched::unlock( g ); }
NOTSAN void __cxa_guard_abort( uint64_t * g ) { sched::unlock( g ); }
#ifdef __SANITIZE_THREAD__
#define RMW( bits, type, name, op ) \
NOTSAN type __tsan_atomic##bits##_##name( volatile type * a, type v, int mo ) \
{ \
  if ( sched::atomic_points and sched::managed() ) sched::point(); \
  if ( mo >= 3 ) __tsan_release( (void *) a ); \
  const type r = op( a, v, __ATOMIC_SEQ_CST ); \
  if ( mo == 1 or mo == 2 or mo >= 4 ) __tsan_acquire( (void *) a ); \
  return r; \
}
RMW( 32, int, fetch_add, __atomic_fetch_add ) RMW( 32, int, fetch_sub, __atomic_fetch_sub ) RMW( 32, int, exchange, __atomic_exchange_n )
RMW( 64, long, fetch_add, __atomic_fetch_add ) RMW( 64, long, fetch_sub, __atomic_fetch_sub ) RMW( 64, long, exchange, __atomic_exchange_n )
#endif
}
#endif
