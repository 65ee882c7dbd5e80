#include "dsched.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace ds {
static std::atomic< long > clock_( 1 );
long stamp() { return clock_.fetch_add( 1, std::memory_order_relaxed ); }

#ifdef REAL_THREADS

static thread_local int self_ = -1;
static thread_local uint64_t rs = 1;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
int self() { return self_; }
void yield()
{
  uint64_t r = rnd() % 16;
  if ( r < 3 ) std::this_thread::yield();
  else if ( r == 3 ) for ( volatile int k = 0; k < 400; ++k ) {}
}
void idle() { usleep( 20 ); }

Result run( const std::vector< std::function< void() > > & tasks, uint64_t seed, int )
{
  std::vector< std::thread > t;
  for ( size_t k = 0; k < tasks.size(); ++k )
    t.emplace_back( [ &tasks, k, seed ] { self_ = ( int )k; rs = seed * 0x9e3779b97f4a7c15ull + k * 7919 + 1; for ( int j = 0; j < 4; ++j ) rnd(); tasks[ k ](); } );
  for ( auto & x : t ) x.join();
  Result r;
  r.hash = seed;
  return r;
}

} // namespace ds
#else

typedef int ( *MFn )( pthread_mutex_t * );
typedef int ( *CWFn )( pthread_cond_t *, pthread_mutex_t * );
typedef int ( *CTFn )( pthread_cond_t *, pthread_mutex_t *, const struct timespec * );
typedef int ( *CSFn )( pthread_cond_t * );
template< class F > static F real( const char * n ) { return ( F )dlsym( RTLD_NEXT, n ); }

enum St { RUNNABLE, ON_MUTEX, ON_COND, DONE };
struct Task
{
  int id; St st = RUNNABLE; sem_t sem; const void * on = 0; bool signalled = false; int prio = 0; bool idling = false;
  std::function< void() > f; pthread_t th;
};
struct Sched
{
  std::vector< Task * > t;
  std::map< const void *, int > owner;        // mutex -> task id
  uint64_t rs; int mode; int spuriousPermille; long steps = 0, limit = 60000; int stick;
  std::vector< long > change;                 // PCT change points
  Result r; sem_t finished; int cur = -1; bool abort = false; int lowest = 0;
  uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
  int below( int n ) { return n <= 1 ? 0 : ( int )( ( rnd() >> 11 ) % ( uint64_t )n ); }
};
static Sched * S = 0;
static thread_local Task * me = 0;
int self() { return me ? me->id : -1; }

static void grant( Task * x )
{
  S->r.hash = ( S->r.hash ^ ( uint64_t )( x->id + 1 ) ) * 1099511628211ull;
  if ( S->cur != x->id ) ++S->r.switches;
  S->cur = x->id;
  sem_post( &x->sem );
}
static void park() { while ( sem_wait( &me->sem ) ) {} if ( S->abort ) pthread_exit( 0 ); }

static bool ready( Task * x )
{
  if ( x->st == RUNNABLE ) return true;
  if ( x->st == ON_MUTEX ) return !S->owner.count( x->on );
  return false;
}

static std::string describe()
{
  std::string s;
  for ( Task * x : S->t )
  {
    static const char * n[] = { "runnable", "waiting for a mutex", "waiting on a condition", "finished" };
    char b[ 80 ]; snprintf( b, sizeof b, " task %d %s;", x->id, n[ x->st ] ); s += b;
  }
  return s;
}

// picks the next task and hands over; returns when the caller may go on
static void reschedule( bool leaving )
{
  Sched & s = *S;
  if ( s.abort ) { if ( !leaving ) pthread_exit( 0 ); return; }
  ++s.steps;
  std::vector< Task * > c;
  for ( Task * x : s.t ) if ( ready( x ) ) c.push_back( x );
  // spurious wake-ups
  if ( s.spuriousPermille )
    for ( Task * x : s.t )
      if ( x->st == ON_COND && s.below( 1000 ) < s.spuriousPermille ) { x->st = RUNNABLE; x->signalled = true; c.push_back( x ); ++s.r.spurious; }
  if ( c.empty() )
  {
    bool all = true;
    for ( Task * x : s.t ) if ( x->st != DONE ) all = false;
    if ( !all ) { s.r.deadlock = true; s.r.what = "no task can run:" + describe(); s.abort = true; }
    sem_post( &s.finished );
    if ( !leaving ) park();
    return;
  }
  if ( s.steps > s.limit )
  {
    s.r.livelock = true; s.r.what = "step limit reached:" + describe(); s.abort = true;
    sem_post( &s.finished );
    if ( !leaving ) park();
    return;
  }
  std::vector< Task * > busy;
  for ( Task * x : c ) if ( !x->idling ) busy.push_back( x );
  std::vector< Task * > & p = busy.empty() ? c : busy;
  Task * next = 0;
  if ( s.mode == 0 ) next = p[ s.below( ( int )p.size() ) ];
  else if ( s.mode == 1 )
  {
    if ( s.below( 100 ) < s.stick ) for ( Task * x : p ) if ( x->id == s.cur ) next = x;
    if ( !next ) next = p[ s.below( ( int )p.size() ) ];
  }
  else
  {
    for ( long ch : s.change ) if ( ch == s.steps && s.cur >= 0 ) s.t[ s.cur ]->prio = --s.lowest;
    for ( Task * x : p ) if ( !next || x->prio > next->prio ) next = x;
  }
  for ( Task * x : s.t ) if ( x != me || leaving ) x->idling = false;
  if ( next == me && !leaving )
  {
    s.r.hash = ( s.r.hash ^ ( uint64_t )( next->id + 1 ) ) * 1099511628211ull;
    return;
  }
  grant( next );
  if ( !leaving ) park();
}

void yield() { if ( me && S ) reschedule( false ); }
void idle()
{
  if ( !me || !S ) return;
  me->idling = true;
  if ( S->mode == 2 ) me->prio = --S->lowest;
  reschedule( false );
}

static void * body( void * p )
{
  me = ( Task * )p;
  park();
  me->f();
  me->st = DONE;
  Task * m = me;
  ( void )m;
  reschedule( true );
  me = 0;
  return 0;
}

Result run( const std::vector< std::function< void() > > & tasks, uint64_t seed, int spuriousPermille )
{
  Sched s;
  s.rs = seed * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
  for ( int k = 0; k < 8; ++k ) s.rnd();
  s.mode = s.below( 3 );
  s.stick = 60 + s.below( 39 );
  s.spuriousPermille = spuriousPermille;
  s.r.hash = 1469598103934665603ull;
  for ( int k = 0, n = 1 + s.below( 4 ); k < n; ++k ) s.change.push_back( 1 + s.below( 40 + s.below( 300 ) ) );
  sem_init( &s.finished, 0, 0 );
  for ( size_t k = 0; k < tasks.size(); ++k )
  {
    Task * x = new Task; x->id = ( int )k; x->f = tasks[ k ]; x->prio = 1 + s.below( 1000 ); sem_init( &x->sem, 0, 0 );
    s.t.push_back( x );
  }
  S = &s;
  for ( Task * x : s.t ) if ( pthread_create( &x->th, 0, body, x ) ) { perror( "pthread_create" ); _exit( 3 ); }
  grant( s.t[ s.below( ( int )s.t.size() ) ] );
  while ( sem_wait( &s.finished ) ) {}
  if ( s.abort )
  {
    // the run failed: the stuck threads cannot be unwound safely; the caller
    // reports and leaves the process
    S = 0;
    Result r = s.r; r.steps = s.steps;
    return r;
  }
  for ( Task * x : s.t ) { pthread_join( x->th, 0 ); sem_destroy( &x->sem ); delete x; }
  S = 0;
  sem_destroy( &s.finished );
  s.r.steps = s.steps;
  return s.r;
}

static void vlock( const void * m )
{
  reschedule( false );
  if ( S->owner.count( m ) )
  {
    ++S->r.contended;
    while ( S->owner.count( m ) ) { me->st = ON_MUTEX; me->on = m; reschedule( false ); me->st = RUNNABLE; }
  }
  me->st = RUNNABLE;
  S->owner[ m ] = me->id;
}
static int vunlock( const void * m )
{
  auto f = S->owner.find( m );
  if ( f == S->owner.end() || f->second != me->id ) { fprintf( stderr, "mutex unlocked by a task that does not own it\n" ); abort(); }
  S->owner.erase( f );
  return 0;
}
static int vwait( const void * c, const void * m )
{
  ++S->r.waits;
  vunlock( m );
  me->st = ON_COND; me->on = c; me->signalled = false;
  reschedule( false );
  me->st = RUNNABLE;
  while ( S->owner.count( m ) ) { me->st = ON_MUTEX; me->on = m; reschedule( false ); me->st = RUNNABLE; }
  S->owner[ m ] = me->id;
  return 0;
}
static void wake( const void * c, bool all )
{
  std::vector< Task * > w;
  for ( Task * x : S->t ) if ( x->st == ON_COND && x->on == c ) w.push_back( x );
  if ( w.empty() ) return;
  if ( all ) { for ( Task * x : w ) { x->st = RUNNABLE; x->signalled = true; } return; }
  Task * x = w[ S->below( ( int )w.size() ) ];
  x->st = RUNNABLE; x->signalled = true;
}
} // namespace ds

using namespace ds;
extern "C" {
int pthread_mutex_lock( pthread_mutex_t * m )
{
  if ( me && S ) { vlock( m ); return 0; }
  static MFn f = real< MFn >( "pthread_mutex_lock" ); return f( m );
}
int pthread_mutex_trylock( pthread_mutex_t * m )
{
  if ( me && S ) { reschedule( false ); if ( S->owner.count( m ) ) return EBUSY; S->owner[ m ] = me->id; return 0; }
  static MFn f = real< MFn >( "pthread_mutex_trylock" ); return f( m );
}
int pthread_mutex_unlock( pthread_mutex_t * m )
{
  if ( me && S ) { int r = vunlock( m ); reschedule( false ); return r; }
  static MFn f = real< MFn >( "pthread_mutex_unlock" ); return f( m );
}
int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
{
  if ( me && S ) return vwait( c, m );
  static CWFn f = real< CWFn >( "pthread_cond_wait" ); return f( c, m );
}
int pthread_cond_timedwait( pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts )
{
  if ( me && S ) { return vwait( c, m ); }      // no timeout ever: a timed wait is no excuse for a lost wake-up
  static CTFn f = real< CTFn >( "pthread_cond_timedwait" ); return f( c, m, ts );
}
int pthread_cond_clockwait( pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * ts )
{
  if ( me && S ) { return vwait( c, m ); }
  static CTFn f = real< CTFn >( "pthread_cond_timedwait" ); return f( c, m, ts );
}
int pthread_cond_signal( pthread_cond_t * c )
{
  if ( me && S ) { reschedule( false ); wake( c, false ); return 0; }
  static CSFn f = real< CSFn >( "pthread_cond_signal" ); return f( c );
}
int pthread_cond_broadcast( pthread_cond_t * c )
{
  if ( me && S ) { reschedule( false ); wake( c, true ); return 0; }
  static CSFn f = real< CSFn >( "pthread_cond_broadcast" ); return f( c );
}
}
#endif
