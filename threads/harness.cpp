// Workloads and online/offline monitors for fifo_worker, fifo_scheduler,
// processor_container, event_processor and asynchronous_state_machine.
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_worker.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/asynchronous_state_machine.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/statechart/null_exception_translator.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/mpl/list.hpp>
#include <boost/ref.hpp>
#include "dsched.hpp"
#include <atomic>
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
// Also built single-threaded (BOOST_DISABLE_THREADS): the tasks of a scheduled
// run never execute at the same time, so the same programs are valid there.
#ifdef BOOST_HAS_THREADS
static const bool multiThreaded = true;
template< class W > W * newWorker( int how ) { return how == 0 ? new W() : new W( how == 2 ); }
#else
static const bool multiThreaded = false;
template< class W > W * newWorker( int ) { return new W(); }
#endif

namespace sc = boost::statechart;
namespace mpl = boost::mpl;
#define RLX std::memory_order_relaxed

// ---------------------------------------------------------------- reporting
static FILE * out = stdout;
static int wantProp = 0;
static long curEpisode = 0;
static bool verbose = false;
static std::atomic< int > violations( 0 );
static std::map< std::string, long > counters;      // only touched outside the runs
static std::set< std::string > keys;

static std::string fmt( const char * f, ... )
{
  char b[ 1500 ]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a );
  return b;
}
static std::string esc( const std::string & s )
{
  std::string r;
  for ( char c : s ) { if ( c == '\n' ) r += "\\n"; else if ( c == '\t' ) r += ' '; else r += c; }
  return r;
}
struct Violation { std::string tags, msg; };
static std::vector< Violation > found;               // appended outside the runs only
static void violation( const std::string & tags, const std::string & msg ) { found.push_back( { tags, msg } ); }
// violations noticed while tasks run: a fixed array, no allocation, no lock
struct Fast { const char * tags; char msg[ 200 ]; };
static Fast fast[ 16 ];
static std::atomic< int > nFast( 0 );
static void fastViolation( const char * tags, const char * f, ... )
{
  int k = nFast.fetch_add( 1, RLX );
  if ( k >= 16 ) return;
  fast[ k ].tags = tags;
  va_list a; va_start( a, f ); vsnprintf( fast[ k ].msg, sizeof fast[ k ].msg, f, a ); va_end( a );
}

struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t x ) : s( x * 0x9e3779b97f4a7c15ull + 0x1234567 ) { for ( int k = 0; k < 6; ++k ) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  int below( int n ) { return n <= 1 ? 0 : ( int )( ( next() >> 13 ) % ( uint64_t )n ); }
  bool chance( int pct ) { return below( 100 ) < pct; }
};

// ---------------------------------------------------------------- allocator
static std::atomic< long > blocks( 0 ), allocCalls( 0 ), allocFailed( 0 );
static thread_local long failCountdown = 0;          // > 0: the n-th allocation of this thread fails
struct Header { unsigned long magic; const void * type; size_t n; unsigned long pad; };
template< class T > struct TypeTag { static char c; };
template< class T > char TypeTag< T >::c = 0;
template< class T > struct TA
{
  typedef T value_type; typedef T * pointer; typedef const T * const_pointer; typedef T & reference; typedef const T & const_reference;
  typedef size_t size_type; typedef ptrdiff_t difference_type;
  template< class U > struct rebind { typedef TA< U > other; };
  TA() {}
  template< class U > TA( const TA< U > & ) {}
  T * allocate( size_t n, const void * = 0 )
  {
    allocCalls.fetch_add( 1, RLX );
    if ( failCountdown > 0 && --failCountdown == 0 ) { allocFailed.fetch_add( 1, RLX ); throw std::bad_alloc(); }
    Header * h = ( Header * )malloc( sizeof( Header ) + n * sizeof( T ) );
    h->magic = 0x5ca1ab1e5ca1ab1eul; h->type = &TypeTag< T >::c; h->n = n;
    blocks.fetch_add( 1, RLX );
    return ( T * )( h + 1 );
  }
  void deallocate( T * p, size_t n )
  {
    Header * h = ( Header * )p - 1;
    if ( h->magic != 0x5ca1ab1e5ca1ab1eul ) fastViolation( "C20,C24", "block returned to the allocator that it did not hand out (or twice)" );
    else if ( h->n != n ) fastViolation( "C20", "block of %zu elements returned as %zu", h->n, n );
    else if ( h->type != &TypeTag< T >::c ) fastViolation( "C20", "block returned to the allocator of another type" );
    h->magic = 0;
    blocks.fetch_sub( 1, RLX );
    free( h );
  }
  size_t max_size() const { return 1u << 30; }
  bool operator==( const TA & ) const { return true; }
  bool operator!=( const TA & ) const { return false; }
};

// ---------------------------------------------------------------- exceptions
// The number decides the dynamic type, so that a slice or a substitute of the thrown exception is told from the original.
struct Boom : std::runtime_error
{
  int id;
  explicit Boom( int i ) : std::runtime_error( "boom" ), id( i ) {}
  int caughtId() const;
};
struct BoomD : Boom { explicit BoomD( int i ) : Boom( i ) {} };
int Boom::caughtId() const { return typeid( *this ) == ( id % 2 ? typeid( BoomD ) : typeid( Boom ) ) ? id : -3; }
static void throwBoom( int id ) { if ( id % 2 ) throw BoomD( id ); throw Boom( id ); }
struct Stop { std::string what; };

#ifdef REAL_THREADS
static const bool realThreads = true;
#else
static const bool realThreads = false;
#endif

static uint64_t mix( uint64_t h, uint64_t v ) { return ( h ^ v ) * 1099511628211ull; }

// ======================================================================
// Scenario A: fifo_worker
// ======================================================================
// ONLY (1 or 2) builds one scenario, for shorter compilation
#if !defined( ONLY ) || ONLY == 1
namespace A {
struct QOp { int id = -1; long start = 0, ret = 0; int by = 0; bool term = false; bool queued = false; };
struct Exec { int id; long start, end; };
struct Call { unsigned long n, result; long start, end; size_t e0, e1; bool threw; int thrownId; bool termBefore, termAfter; int throwerId; };

struct Plan { std::vector< int > nested; bool throws = false; bool terminates = false; int form = 0; int kind = 0; };
// form: how it is queued; kind of exception

struct EnvBase
{
  std::vector< Plan > plan;                     // per item id, fixed before the run
  std::vector< std::atomic< int > > runs;
  std::vector< Exec > exec;                     // consumer only
  std::vector< std::vector< QOp > > ops;        // per task
  std::atomic< long > live{ 0 };
  std::atomic< int > inside{ 0 };
  int consumerTask = 0;
  int lastThrow = -1;
  virtual void queueItem( int id, int by ) = 0;
  virtual void queueTerminate( int by ) = 0;
};

struct Item
{
  EnvBase * e; int id; int * heap;
  Item( EnvBase * x, int i ) : e( x ), id( i ), heap( new int( i ) ) { e->live.fetch_add( 1, RLX ); }
  Item( const Item & o ) : e( o.e ), id( o.id ), heap( new int( *o.heap ) ) { e->live.fetch_add( 1, RLX ); }
  ~Item() { delete heap; e->live.fetch_sub( 1, RLX ); }
  void operator()()
  {
    EnvBase * env = e; int me = *heap;
    if ( env->inside.fetch_add( 1, RLX ) != 0 ) fastViolation( "C21", "item %d executed while another item is being executed", me );
    if ( ds::self() != env->consumerTask ) fastViolation( "C21", "item %d executed by task %d, which does not run the worker", me, ds::self() );
    int r = env->runs[ me ].fetch_add( 1, RLX );
    if ( r ) fastViolation( env->plan[ me ].throws ? "C21,C25" : "C21", "item %d executed %d times", me, r + 1 );
    size_t slot = env->exec.size();
    env->exec.push_back( { me, ds::stamp(), 0 } );
    const Plan & p = env->plan[ me ];
    if ( ( me & 3 ) == 0 ) ds::yield();
    for ( int x : p.nested ) env->queueItem( x, env->consumerTask );
    if ( p.terminates ) env->queueTerminate( env->consumerTask );
    env->exec[ slot ].end = ds::stamp();
    env->inside.fetch_sub( 1, RLX );
    if ( p.throws ) { env->lastThrow = me; switch ( p.kind ) { case 0: throwBoom( me ); case 1: throw me; default: throw std::range_error( std::to_string( me ) ); } }
  }
};

template< class Alloc > struct Env : EnvBase
{
  typedef sc::fifo_worker< Alloc > W;
  std::unique_ptr< W > w;
  bool customAlloc;
  std::atomic< int > failures{ 0 };
  int failPct = 0;
  void queueItem( int id, int by )
  {
    QOp o; o.id = id; o.by = by;
    o.start = ds::stamp();
    const Plan & p = plan[ id ];
    bool queued = true;
    if ( failPct && id % 100 < failPct ) failCountdown = 1;
    try
    {
      if ( p.form == 0 ) { typename W::work_item i( Item( this, id ) ); try { w->queue_work_item( i ); } catch ( std::bad_alloc & ) { throw; } }
      else if ( p.form == 1 )
      {
        const typename W::work_item i( Item( this, id ) );
        w->queue_work_item( i );
        if ( i.empty() ) fastViolation( "C21", "queue_work_item( const & ) emptied its argument (item %d)", id );
      }
      else if ( p.form == 2 ) w->queue_work_item( typename W::work_item( Item( this, id ) ) );
      else w->queue_work_item( Item( this, id ) );
    }
    catch ( std::bad_alloc & ) { queued = false; failures.fetch_add( 1, RLX ); }
    failCountdown = 0;
    o.ret = ds::stamp();
    o.queued = queued;
    ops[ by ].push_back( o );
  }
  void queueTerminate( int by )
  {
    QOp o; o.by = by; o.term = true; o.queued = true;
    o.start = ds::stamp();
    w->terminate();
    o.ret = ds::stamp();
    ops[ by ].push_back( o );
  }
  void queueEmpty( int form )
  {
    typename W::work_item e;
    if ( form ) { const typename W::work_item & c = e; w->queue_work_item( c ); }
    else w->queue_work_item( e );
  }
};

template< class Alloc > void episode( uint64_t seed, bool custom )
{
  Rng g( seed );
  Env< Alloc > env;
  env.customAlloc = custom;
  bool blocking = g.chance( 55 ) && multiThreaded;
  int np = g.below( 10 ) < 1 ? 0 : 1 + g.below( realThreads ? 4 : 4 );
  env.consumerTask = np;
  long blocks0 = blocks.load( RLX );
  bool usesThrows = wantProp == 25 ? g.chance( 85 ) : g.chance( 35 );
  int throwPct = 5 + g.below( 40 );
  int nestPct = g.below( 3 ) * 25;
  int termPct = g.chance( 25 ) ? 2 + g.below( 10 ) : 0;
  env.failPct = custom && g.chance( 35 ) ? 3 + g.below( 20 ) : 0;

  // programs
  struct Step { int kind; int id; };            // 0 item, 1 terminate, 2 empty item, 3 yield
  std::vector< std::vector< Step > > prog( np + 1 );
  int next = 0;
  auto newPlan = [ & ]( int depth, auto && self ) -> int
  {
    int id = next++;
    Plan p;
    p.form = g.below( 4 ); p.kind = g.below( 3 );
    p.throws = usesThrows && g.chance( throwPct );
    p.terminates = termPct && g.chance( termPct );
    if ( ( int )env.plan.size() <= id ) env.plan.resize( id + 1 );
    env.plan[ id ] = p;
    if ( depth < 3 && g.chance( nestPct ) )
      for ( int k = 1 + g.below( 2 ); k > 0; --k )
      {
        int c = self( depth + 1, self );
        env.plan[ id ].nested.push_back( c );
      }
    return id;
  };
  int flood = g.chance( 3 ) ? g.below( np + 1 ) : -1;     // queues a hundred items
  if ( flood >= 0 ) { nestPct = 0; if ( termPct ) termPct = 1; }
  for ( int p = 0; p <= np; ++p )
  {
    int n = p == np ? ( np == 0 ? 2 + g.below( 6 ) : g.below( 3 ) ) : 1 + g.below( g.chance( 30 ) ? 14 : 5 );
    if ( p == flood ) n = g.chance( 10 ) ? 257 + g.below( 80 ) : 40 + g.below( 120 );
    for ( int k = 0; k < n; ++k )
    {
      int r = g.below( 100 );
      if ( r < 6 ) prog[ p ].push_back( { 2, g.below( 2 ) } );
      else if ( r < 18 ) prog[ p ].push_back( { 3, 0 } );
      else if ( termPct && r < 18 + termPct / 2 ) prog[ p ].push_back( { 1, 0 } );
      else prog[ p ].push_back( { 0, newPlan( 0, newPlan ) } );
    }
  }
  // who ends it: a closing terminate (always when blocking)
  int closing = blocking ? g.below( 3 ) : g.below( 5 );   // 0 producer 0 early, 1/2 after all producers, >2 none
  bool closer = closing <= 2;
  if ( np == 0 ) closing = 3;
  if ( closing == 0 && np )
  {
    size_t pos = g.below( ( int )prog[ 0 ].size() + 1 );
    prog[ 0 ].insert( prog[ 0 ].begin() + pos, { 1, 0 } );
  }
  std::vector< std::atomic< int > > runs( env.plan.size() );
  env.runs.swap( runs );
  env.ops.resize( np + 2 );
  env.exec.reserve( env.plan.size() * 2 + 8 );
  env.w.reset( newWorker< typename Env< Alloc >::W >( blocking ? 2 : g.below( 2 ) ) );
  std::vector< Call > calls;
  std::atomic< int > done( 0 );
  int limitMode = g.below( 4 );                 // 0: unlimited, 1: small, 2: mixed, 3: one
  uint64_t cseed = g.next();
  int spurious = g.chance( 40 ) ? 20 + g.below( 200 ) : 0;
  bool wedge = false;

  std::vector< std::function< void() > > tasks;
  for ( int p = 0; p < np; ++p )
    tasks.push_back( [ &, p ]
    {
      for ( const Step & s : prog[ p ] )
      {
        if ( s.kind == 0 ) env.queueItem( s.id, p );
        else if ( s.kind == 1 ) env.queueTerminate( p );
        else if ( s.kind == 2 ) env.queueEmpty( s.id );
        else ds::yield();
      }
      if ( ( closing == 1 || closing == 2 ) && p == 0 )
      {
        while ( done.load( RLX ) < np - 1 ) ds::idle();
        if ( closing == 2 ) for ( int k = 0; k < 12; ++k ) ds::yield();
        env.queueTerminate( p );
      }
      done.fetch_add( 1, RLX );
    } );
  tasks.push_back( [ & ]
  {
    Rng c( cseed );
    for ( const Step & s : prog[ np ] )
    {
      if ( s.kind == 0 ) env.queueItem( s.id, np );
      else if ( s.kind == 1 ) env.queueTerminate( np );
      else if ( s.kind == 2 ) env.queueEmpty( s.id );
    }
    if ( np == 0 && ( blocking ) ) env.queueTerminate( np );
    if ( env.w->terminated() ) fastViolation( "C22", "terminated() is true before operator() was called" );
    int after = 0;
    for ( int guard = 0; guard < 4000; ++guard )
    {
      bool allDone = done.load( RLX ) == np;
      Call k;
      k.n = limitMode == 0 ? 0 : limitMode == 1 ? 1 + c.below( 4 ) : limitMode == 2 ? c.below( 6 ) : 1;
      k.e0 = env.exec.size(); k.threw = false; k.result = 0; k.thrownId = -1; k.termBefore = env.w->terminated();
      k.start = ds::stamp();
      env.lastThrow = -1;
      try { k.result = k.n || c.chance( 50 ) ? ( *env.w )( k.n ) : ( *env.w )(); }
      catch ( Boom & b ) { k.threw = true; k.thrownId = b.caughtId(); }
      catch ( int & b ) { k.threw = true; k.thrownId = b; }
      catch ( std::runtime_error & b ) { k.threw = true; k.thrownId = typeid( b ) == typeid( std::range_error ) ? atoi( b.what() ) : -3; }
      catch ( Stop & ) { throw; }
      catch ( ... ) { k.threw = true; k.thrownId = -4; }
      k.throwerId = env.lastThrow;
      if ( env.inside.load( RLX ) ) env.inside.store( 0, RLX );
      k.end = ds::stamp();
      k.e1 = env.exec.size(); k.termAfter = env.w->terminated();
      calls.push_back( k );
      if ( k.threw ) continue;
      if ( k.termAfter ) { if ( after++ >= 2 ) break; }
      else if ( !blocking && k.result == 0 ) { if ( allDone ) break; ds::idle(); }
    }
    ( void )wedge;
  } );
  nFast.store( 0, RLX );
  ds::Result r = ds::run( tasks, seed, spurious );

  // ------------------------------------------------ judgement
  std::string head = fmt( "worker(%s) %d producers, %zu items, limit mode %d, %s: ", blocking ? "blocking" : "non-blocking", np, env.plan.size(), limitMode,
    custom ? "custom allocator" : "standard allocator" );
  if ( r.deadlock || r.livelock )
  {
    bool terminateReturned = false;
    for ( auto & v : env.ops ) for ( auto & o : v ) if ( o.term ) terminateReturned = true;
    violation( "C21,C22", head + r.what + ( terminateReturned ? " (terminate() was called)" : "" ) );
    return;                                       // the caller leaves the process
  }
  for ( int k = 0, n = std::min( 16, nFast.load( RLX ) ); k < n; ++k ) violation( fast[ k ].tags, head + fast[ k ].msg );

  std::vector< QOp > byId( env.plan.size() );
  std::vector< QOp > terms;
  for ( auto & v : env.ops ) for ( auto & o : v ) { if ( o.term ) terms.push_back( o ); else byId[ o.id ] = o; }
  std::vector< int > pos( env.plan.size(), -1 );
  for ( size_t k = 0; k < env.exec.size(); ++k ) { if ( pos[ env.exec[ k ].id ] < 0 ) pos[ env.exec[ k ].id ] = ( int )k; }
  bool anyThrow = false;
  for ( auto & c : calls ) if ( c.threw ) anyThrow = true;
  bool terminated = !calls.empty() && calls.back().termAfter;
  // order: an operation that had returned before another began comes first
  for ( size_t a = 0; a < env.exec.size(); ++a )
  {
    const QOp & qa = byId[ env.exec[ a ].id ];
    if ( qa.id < 0 && qa.start == 0 ) continue;
    if ( !qa.queued ) violation( "C21", head + fmt( "item %d executed although queueing it had failed", qa.id ) );
    for ( size_t b = a + 1; b < env.exec.size(); ++b )
    {
      const QOp & qb = byId[ env.exec[ b ].id ];
      if ( qb.start && qb.ret < qa.start )
      {
        violation( "C21", head + fmt( "item %d (queued by %d during [%ld,%ld]) was executed before item %d (queued by %d during [%ld,%ld])", qa.id, qa.by, qa.start, qa.ret,
          qb.id, qb.by, qb.start, qb.ret ) );
        a = env.exec.size(); break;
      }
    }
  }
  for ( size_t k = 0; k < byId.size(); ++k )
  {
    const QOp & q = byId[ k ];
    if ( !q.start || !q.queued ) continue;
    if ( pos[ k ] >= 0 )
    {
      for ( auto & t : terms )
        if ( t.ret < q.start ) { violation( "C22,C21", head + fmt( "item %zu was executed although it was queued after a terminate()", k ) ); break; }
      if ( env.exec[ pos[ k ] ].start < q.start ) violation( "C21", head + fmt( "item %zu executed before it was queued", k ) );
      continue;
    }
    // never executed: must lie behind the terminate in the queue
    bool excused = false;
    if ( terminated ) for ( auto & t : terms ) if ( t.start < q.ret ) excused = true;
    // with a terminate() around, what stays in the queue is also a matter of what terminate() promises
    const char * tags = anyThrow ? ( terminated ? "C21,C25,C22" : "C21,C25" ) : terminated ? "C21,C22" : "C21";
    if ( !excused ) { violation( tags, head + fmt( "item %zu (queued by %d) was never executed", k, q.by ) ); continue; }
    for ( auto & e : env.exec )
      if ( byId[ e.id ].start > q.ret ) { violation( "C21", head + fmt( "item %zu was skipped: item %d, queued later, was executed", k, e.id ) ); break; }
  }
  if ( terms.empty() && terminated ) violation( "C22", head + "terminated() is true although terminate() was never called" );
  if ( !terms.empty() && !terminated ) violation( "C22", head + "terminate() never took effect" );
  for ( size_t k = 0; k < calls.size(); ++k )
  {
    const Call & c = calls[ k ];
    size_t ran = c.e1 - c.e0;
    bool tookEffect = !c.termBefore && c.termAfter;
    std::string ch = head + fmt( "operator()(%lu) #%zu: ", c.n, k );
    if ( c.termBefore && ( ran || c.result || c.threw ) ) violation( "C22", ch + fmt( "executed %zu items after termination", ran ) );
    if ( c.termBefore && !c.termAfter ) violation( "C22", ch + "terminated() changed back to false" );
    if ( c.n && ran + ( tookEffect ? 1 : 0 ) > c.n ) violation( "C21", ch + fmt( "executed %zu work items", ran + tookEffect ) );
    if ( c.threw )
    {
      if ( c.thrownId != c.throwerId ) violation( "C25", ch + fmt( "propagated the exception of item %d, but item %d threw", c.thrownId, c.throwerId ) );
      if ( !ran || env.exec[ c.e1 - 1 ].id != c.thrownId ) violation( "C25", ch + "the item that threw is not the last executed one" );
    }
    else
    {
      if ( c.throwerId >= 0 ) violation( "C25", ch + fmt( "the exception of item %d did not leave operator()", c.throwerId ) );
      if ( c.result != ran + ( tookEffect ? 1 : 0 ) )
        violation( "C21", ch + fmt( "returned %lu, but executed %zu items%s", c.result, ran, tookEffect ? " and the terminate item" : "" ) );
      if ( !c.termAfter && !( c.n && c.result == c.n ) )
      {
        if ( blocking ) violation( "C22", ch + fmt( "a blocking worker returned %lu without terminate() or the limit being reached", c.result ) );
        // the queue was empty at some moment after the last executed item
        long t = ran ? env.exec[ c.e1 - 1 ].end : c.start;
        for ( size_t q = 0; q < byId.size(); ++q )
          if ( byId[ q ].start && byId[ q ].queued && byId[ q ].ret < t && ( pos[ q ] < 0 || ( size_t )pos[ q ] >= c.e1 ) )
            { violation( "C21", ch + fmt( "returned although item %zu was in the queue", q ) ); break; }
      }
    }
  }
  long live = env.live.load( RLX );
  long leftovers = 0;
  for ( size_t k = 0; k < byId.size(); ++k ) if ( byId[ k ].start && byId[ k ].queued && pos[ k ] < 0 ) ++leftovers;
  if ( live != leftovers ) violation( "C21", head + fmt( "%ld work item objects alive, %ld items in the queue", live, leftovers ) );
  // items left over stay queued and are destroyed with the worker
  env.w.reset();
  if ( env.live.load( RLX ) != 0 ) violation( "C21", head + fmt( "%ld work item objects outlive the worker", env.live.load( RLX ) ) );
  if ( blocks.load( RLX ) != blocks0 ) violation( "C20", head + fmt( "%ld blocks not returned to the custom allocator", blocks.load( RLX ) - blocks0 ) );

  // ------------------------------------------------ evidence
  counters[ "episodes" ]++; counters[ "items_queued" ] += byId.size(); counters[ "items_executed" ] += env.exec.size();
  counters[ "operator_calls" ] += calls.size(); counters[ "scheduler_switches" ] += r.switches; counters[ "scheduling_steps" ] += r.steps;
  counters[ "condition_waits" ] += r.waits; counters[ "spurious_wakeups" ] += r.spurious; counters[ "contended_locks" ] += r.contended;
  counters[ "terminations" ] += terminated; counters[ "leftover_items" ] += leftovers; counters[ "failed_queueings" ] += env.failures.load( RLX );
  long thrown = 0; for ( auto & c : calls ) thrown += c.threw;
  counters[ "exceptions_propagated" ] += thrown;
  uint64_t h = r.hash;
  if ( realThreads ) { h = 1469598103934665603ull; for ( auto & e : env.exec ) h = mix( h, e.id + 1 ); for ( auto & c : calls ) h = mix( h, c.result + 7 ); h = mix( h, env.plan.size() ); }
  bool relevant = wantProp == 21 ? env.exec.size() > 1 : wantProp == 22 ? ( blocking && ( realThreads || r.waits > 0 || !terms.empty() ) ) : wantProp == 25 ? thrown > 0 : true;
  if ( relevant ) keys.insert( fmt( "A%016lx", ( unsigned long )h ) );
  if ( verbose )
  {
    for ( auto & e : env.exec ) fprintf( stderr, "exec %d [%ld %ld]\n", e.id, e.start, e.end );
    for ( auto & v : env.ops ) for ( auto & o : v ) fprintf( stderr, "op by %d id %d term %d [%ld %ld] queued %d\n", o.by, o.id, o.term, o.start, o.ret, o.queued );
    for ( auto & c : calls ) fprintf( stderr, "call n %lu result %lu threw %d term %d->%d\n", c.n, c.result, c.threw, c.termBefore, c.termAfter );
  }
}
} // namespace A
#endif

// ======================================================================
// Scenario B: schedulers, processors, asynchronous machines
// ======================================================================
#if !defined( ONLY ) || ONLY == 2
namespace B {
enum Kind { CREATED, INIT, EVENT, TERM, DEAD, ENTRY, EXIT, MARK, CTORFAIL, SPAWNED };
static const char * kindName[] = { "constructed", "initiated", "event", "terminated", "destroyed", "entered", "exited", "marker", "constructor-failed", "spawned" };
struct Log { int uid; int kind; int value; long stamp; int task; };
struct Sent { int msg; int from; int to; long start, ret; };   // to: permanent processor, from: task * 1000 + processor uid

struct World;
static World * world = 0;

template< class S, class AllocE > struct Sys;

// per scheduler log, written by its task only
struct World
{
  std::vector< std::vector< Log > > logs;
  std::vector< std::vector< Sent > > sent;          // per task
  std::vector< int > schedTask;                     // scheduler -> task
  std::atomic< long > liveProc{ 0 }, liveEvent{ 0 }, liveArg{ 0 };
  std::atomic< int > nextUid{ 100000 };
  std::atomic< int > abrupt{ 0 };
  std::vector< std::vector< int > > thrown;         // per task: id of the exception thrown last
  int nSched = 0;
};
static void note( int sched, int uid, int kind, int value )
{
  World & w = *world;
  int t = ds::self();
  if ( t != w.schedTask[ sched ] && t != -1 )
  {
    fastViolation( "C24", "processor %d of scheduler %d is used (%s %d) by task %d", uid, sched, kindName[ kind ], value, t );
    return;
  }
  w.logs[ sched ].push_back( { uid, kind, value, ds::stamp(), t } );
}
static void throwing( int id ) { if ( ds::self() >= 0 ) world->thrown[ ds::self() ].push_back( id ); }

enum Act { NOTHING, THROW, SELF_DESTROY, SELF_QUEUE, FORWARD, MARKER, SPAWN, ABRUPT, TRANSIT, POST, DEFER, ENTRYTHROW, EXITTHROW };

template< class AllocE > struct Msg : sc::event< Msg< AllocE >, AllocE >
{
  unsigned long magic; int id, act, ttl, to; int * heap;
  Msg( int i, int a = NOTHING, int l = 0, int t = 0 ) : magic( 0xfeedfacecafebeeful ), id( i ), act( a ), ttl( l ), to( t ), heap( new int( i ) ) { world->liveEvent.fetch_add( 1, RLX ); }
  Msg( const Msg & o ) : sc::event< Msg< AllocE >, AllocE >( o ), magic( o.magic ), id( o.id ), act( o.act ), ttl( o.ttl ), to( o.to ), heap( new int( *o.heap ) ) { world->liveEvent.fetch_add( 1, RLX ); }
  ~Msg()
  {
    if ( magic != 0xfeedfacecafebeeful ) fastViolation( "C24", "event destroyed twice" );
    magic = 0; delete heap; world->liveEvent.fetch_sub( 1, RLX );
  }
  void check( int uid ) const { if ( magic != 0xfeedfacecafebeeful || *heap != id ) fastViolation( "C24", "processor %d received an event object that is not alive", uid ); }
};

// constructor arguments
struct Arg
{
  int v; int * heap;
  explicit Arg( int x ) : v( x ), heap( new int( x ) ) { world->liveArg.fetch_add( 1, RLX ); }
  Arg( const Arg & o ) : v( o.v ), heap( new int( *o.heap ) ) { world->liveArg.fetch_add( 1, RLX ); }
  ~Arg() { v = -1; delete heap; world->liveArg.fetch_sub( 1, RLX ); }
};
struct Target { int uid; std::atomic< int > hits; const void * addr; Target() : uid( 0 ), hits( 0 ), addr( 0 ) {} Target( const Target & o ) : uid( o.uid ), hits( o.hits.load( RLX ) ), addr( o.addr ) {} };

// what a processor needs to know; found through its uid
struct Spec { int uid = 0, sched = 0, arity = 0; bool throwCtor = false, throwInit = false, throwTerm = false, spawned = false; bool constructed = false; int expectV[ 7 ] = { 0 }; Target * ref = 0; const void * created = 0; };

template< class S, class AllocE > struct Sys
{
  typedef typename S::processor_handle Handle;
  std::vector< std::unique_ptr< S > > sched;
  std::vector< Handle > perm; std::vector< int > permSched;
  static Sys * cur;
  std::deque< Spec > specs;            // fixed before the run; by uid index
  int failPct = 0; std::atomic< long > failedSends{ 0 };
};
template< class S, class AllocE > Sys< S, AllocE > * Sys< S, AllocE >::cur = 0;

template< class S, class AllocE > struct Common
{
  typedef Sys< S, AllocE > Y;
  typedef Msg< AllocE > M;
  static int send( typename Y::Handle h, S & s, M * m ) { boost::intrusive_ptr< const sc::event_base > p( m ); s.queue_event( h, p ); return m->id; }
  // sends to a permanent processor and records it
  static void toPerm( int perm, boost::intrusive_ptr< const sc::event_base > p, int msg, int from )
  {
    Y & y = *Y::cur;
    int t = ds::self();
    Sent s{ msg, from, perm, ds::stamp(), 0 };
    bool failing = y.failPct && from < 1000 && msg % 100 < y.failPct;   // the send of a driver
    if ( failing ) failCountdown = 1 + msg / 100 % 3;
    try { y.sched[ y.permSched[ perm ] ]->queue_event( y.perm[ perm ], p ); }
    catch ( std::bad_alloc & ) { failCountdown = 0; if ( !failing ) throw; y.failedSends.fetch_add( 1, RLX ); return; }
    failCountdown = 0;
    s.ret = ds::stamp();
    world->sent[ t ].push_back( s );
  }
  struct Mark { int sched, id; void operator()() const { note( sched, -1, MARK, id ); } };
  template< class P > static void react( P & self, int uid, int sched, const M & m );
};

// -- a plain event_processor subtype
template< class S, class AllocE > struct Rec : sc::event_processor< S >
{
  typedef sc::event_processor< S > base; typedef Sys< S, AllocE > Y; typedef Msg< AllocE > M;
  typedef typename base::my_context Ctx;
  int uid, sched; bool dead; int * heap; Spec * spec;
  void start( int u, int arity )
  {
    Y & y = *Y::cur;
    uid = u; dead = false;
    if ( u < 0 || u >= ( int )y.specs.size() ) { fastViolation( "C23", "processor constructed with a wrong identification %d", u ); abort(); }
    spec = &y.specs[ u ]; sched = spec->sched;
    if ( spec->arity != arity ) fastViolation( "C23", "processor %d constructed with %d instead of %d arguments", u, arity, spec->arity );
    if ( &this->my_scheduler() != y.sched[ sched ].get() ) fastViolation( "C23", "my_scheduler() of processor %d is wrong", u );
    note( sched, uid, CREATED, arity );
    heap = new int( u );
    world->liveProc.fetch_add( 1, RLX );
    if ( spec->throwCtor ) { note( sched, uid, CTORFAIL, 0 ); delete heap; world->liveProc.fetch_sub( 1, RLX ); throwing( 1000000 + uid ); throwBoom( 1000000 + uid ); }
  }
  void val( const Arg & a, int k ) { if ( a.v != spec->expectV[ k ] || *a.heap != a.v ) fastViolation( "C23", "argument %d of processor %d is %d instead of %d", k, uid, a.v, spec->expectV[ k ] ); }
  void ref( Target & t ) { if ( &t != spec->ref ) fastViolation( "C23", "by-reference argument of processor %d does not alias the caller's object", uid ); t.hits.fetch_add( 1, RLX ); }
  static int zero;                                // uid of the only processor created without arguments
  Rec( Ctx c ) : base( c ) { start( zero, 0 ); }
  Rec( Ctx c, int u ) : base( c ) { start( u, 1 ); }
  Rec( Ctx c, int u, Arg a ) : base( c ) { start( u, 2 ); val( a, 2 ); }
  Rec( Ctx c, int u, const Arg & a, Target & t ) : base( c ) { start( u, 3 ); val( a, 2 ); ref( t ); }
  Rec( Ctx c, Target & t, int u, Arg a, const Arg & b ) : base( c ) { start( u, 4 ); val( a, 3 ); val( b, 4 ); ref( t ); }
  Rec( Ctx c, const Arg & a, int u, Arg b, Target & t, const Arg & d ) : base( c ) { start( u, 5 ); val( a, 1 ); val( b, 3 ); val( d, 5 ); ref( t ); }
  Rec( Ctx c, Arg a, Arg b, Target & t, int u, Arg d, Arg e ) : base( c ) { start( u, 6 ); val( a, 1 ); val( b, 2 ); val( d, 5 ); val( e, 6 ); ref( t ); }
  ~Rec()
  {
    if ( dead ) fastViolation( "C23", "processor %d destroyed twice", uid );
    dead = true;
    note( sched, uid, DEAD, 0 ); delete heap; world->liveProc.fetch_sub( 1, RLX );
  }
  virtual void initiate_impl()
  {
    check(); note( sched, uid, INIT, 0 );
    if ( spec->throwInit ) { throwing( 2000000 + uid ); throwBoom( 2000000 + uid ); }
  }
  virtual void terminate_impl()
  {
    check(); note( sched, uid, TERM, 0 );
    if ( spec->throwTerm ) { throwing( 3000000 + uid ); throwBoom( 3000000 + uid ); }
  }
  virtual void process_event_impl( const sc::event_base & e )
  {
    check();
    if ( e.dynamic_type() != M::static_type() ) { fastViolation( "C24", "processor %d received an event of another type", uid ); return; }
    const M & m = static_cast< const M & >( e );
    m.check( uid );
    note( sched, uid, EVENT, m.id );
    Common< S, AllocE >::react( *this, uid, sched, m );
  }
  void check() { if ( dead || *heap != uid ) fastViolation( "C23", "processor %d is used after its destruction", uid ); }
};
template< class S, class AllocE > int Rec< S, AllocE >::zero = -1;

// -- an asynchronous machine
template< class S, class AllocE, class AllocM, class Tr > struct Asm;
template< class S, class AllocE, class AllocM, class Tr > struct One;
template< class S, class AllocE, class AllocM, class Tr > struct Two;
template< class S, class AllocE, class AllocM, class Tr > struct Asm : sc::asynchronous_state_machine< Asm< S, AllocE, AllocM, Tr >, One< S, AllocE, AllocM, Tr >, S, AllocM, Tr >
{
  typedef sc::asynchronous_state_machine< Asm, One< S, AllocE, AllocM, Tr >, S, AllocM, Tr > base; typedef Sys< S, AllocE > Y;
  int uid, sched; Spec * spec; bool dead; int entryThrow, exitThrow;
  Asm( typename base::my_context c, int u ) : base( c ), uid( u ), dead( false ), entryThrow( 0 ), exitThrow( 0 )
  {
    Y & y = *Y::cur; spec = &y.specs[ u ]; sched = spec->sched;
    if ( &this->my_scheduler() != y.sched[ sched ].get() ) fastViolation( "C23", "my_scheduler() of machine %d is wrong", u );
    note( sched, uid, CREATED, 1 ); world->liveProc.fetch_add( 1, RLX );
  }
  ~Asm()
  {
    if ( dead ) fastViolation( "C23", "machine %d destroyed twice", uid );
    dead = true; note( sched, uid, DEAD, 0 ); world->liveProc.fetch_sub( 1, RLX );
  }
};
template< class S, class AllocE, class AllocM, class Tr > struct One : sc::state< One< S, AllocE, AllocM, Tr >, Asm< S, AllocE, AllocM, Tr > >
{
  typedef sc::state< One, Asm< S, AllocE, AllocM, Tr > > base; typedef Msg< AllocE > M;
  typedef mpl::list< sc::custom_reaction< M >, sc::custom_reaction< sc::exception_thrown > > reactions;
  One( typename base::my_context c ) : base( c )
  {
    auto & m = this->outermost_context();
    if ( int id = m.entryThrow ) { m.entryThrow = 0; throwing( id ); throwBoom( id ); }
    note( m.sched, m.uid, ENTRY, 1 );
  }
  void exit()
  {
    auto & m = this->outermost_context(); note( m.sched, m.uid, EXIT, 1 );
    if ( int id = m.exitThrow ) { m.exitThrow = 0; throwing( id ); throwBoom( id ); }
  }
  sc::result react( const M & e )
  {
    auto & m = this->outermost_context();
    e.check( m.uid );
    note( m.sched, m.uid, EVENT, e.id );
    Common< S, AllocE >::react( m, m.uid, m.sched, e );
    if ( e.act == POST ) { boost::intrusive_ptr< const sc::event_base > p( new M( e.id + 6000000 ) ); this->post_event( p ); if ( e.id & 1 ) this->post_event( M( e.id + 7000000 ) ); }
    if ( e.act == DEFER ) return this->defer_event();
    if ( e.act == ENTRYTHROW ) m.entryThrow = 4000000 + e.id;
    if ( e.act == EXITTHROW ) m.exitThrow = 5000000 + e.id;
    if ( e.act == TRANSIT || e.act == ENTRYTHROW || e.act == EXITTHROW ) return this->template transit< Two< S, AllocE, AllocM, Tr > >();
    return this->discard_event();
  }
  sc::result react( const sc::exception_thrown & ) { auto & m = this->outermost_context(); note( m.sched, m.uid, MARK, 777 ); return this->discard_event(); }
};
template< class S, class AllocE, class AllocM, class Tr > struct Two : sc::state< Two< S, AllocE, AllocM, Tr >, Asm< S, AllocE, AllocM, Tr > >
{
  typedef sc::state< Two, Asm< S, AllocE, AllocM, Tr > > base; typedef Msg< AllocE > M;
  typedef mpl::list< sc::custom_reaction< M >, sc::custom_reaction< sc::exception_thrown > > reactions;
  Two( typename base::my_context c ) : base( c )
  {
    auto & m = this->outermost_context();
    if ( int id = m.entryThrow ) { m.entryThrow = 0; throwing( id ); throwBoom( id ); }
    note( m.sched, m.uid, ENTRY, 2 );
  }
  void exit()
  {
    auto & m = this->outermost_context(); note( m.sched, m.uid, EXIT, 2 );
    if ( int id = m.exitThrow ) { m.exitThrow = 0; throwing( id ); throwBoom( id ); }
  }
  sc::result react( const M & e )
  {
    auto & m = this->outermost_context();
    e.check( m.uid );
    note( m.sched, m.uid, EVENT, e.id );
    Common< S, AllocE >::react( m, m.uid, m.sched, e );
    if ( e.act == POST ) { boost::intrusive_ptr< const sc::event_base > p( new M( e.id + 6000000 ) ); this->post_event( p ); if ( e.id & 1 ) this->post_event( M( e.id + 7000000 ) ); }
    if ( e.act == ENTRYTHROW ) m.entryThrow = 4000000 + e.id;
    if ( e.act == EXITTHROW ) m.exitThrow = 5000000 + e.id;
    if ( e.act == TRANSIT || e.act == ENTRYTHROW || e.act == EXITTHROW ) return this->template transit< One< S, AllocE, AllocM, Tr > >();
    return this->discard_event();
  }
  sc::result react( const sc::exception_thrown & ) { auto & m = this->outermost_context(); note( m.sched, m.uid, MARK, 777 ); return this->discard_event(); }
};

template< class S, class AllocE > template< class P > void Common< S, AllocE >::react( P & self, int uid, int sched, const M & m )
{
  Y & y = *Y::cur;
  typename Y::Handle h = self.my_handle();
  if ( h.expired() ) fastViolation( "C23", "my_handle() of living processor %d is expired", uid );
  switch ( m.act )
  {
  case THROW: throwing( m.id ); throwBoom( m.id );
  case SELF_DESTROY: self.my_scheduler().destroy_processor( self.my_handle() ); break;
  case SELF_QUEUE: send( h, self.my_scheduler(), new M( m.id + 500000 ) ); break;
  case FORWARD:
    if ( m.ttl > 0 && !y.perm.empty() )
    {
      int to = ( m.to + m.ttl ) % ( int )y.perm.size();
      int id = m.id + 10000000;
      boost::intrusive_ptr< const sc::event_base > p( new M( id, FORWARD, m.ttl - 1, to ) );
      toPerm( to, p, id, 1000 + uid );
      if ( m.id % 3 == 0 ) { int to2 = ( to + 1 ) % ( int )y.perm.size(); toPerm( to2, p, id, 1000 + uid ); }   // the same object to two receivers
    }
    break;
  case MARKER: { Mark k = { sched, m.id }; self.my_scheduler().queue_work_item( typename S::work_item( k ) ); break; }
  case ABRUPT: world->abrupt.fetch_or( 1 << sched, RLX ); self.my_scheduler().terminate(); break;
  default: break;
  }
}

// ---------------------------------------------------------------- episode
struct Exp { int kind, value; bool throws; };
struct Expect                                     // of one private handle
{
  std::vector< Exp > must;                        // in this order
  int cut = -1;                                   // from here on it may have destroyed itself
  bool endsDead = false;
};

template< class S, class AllocE, class AllocM > void episode( uint64_t seed, bool custom )
{
  typedef Sys< S, AllocE > Y; typedef Msg< AllocE > M; typedef Common< S, AllocE > C;
  typedef Asm< S, AllocE, AllocM, sc::null_exception_translator > AsmN;
  typedef Asm< S, AllocE, AllocM, sc::exception_translator<> > AsmT;
  typedef Rec< S, AllocE > R;
  Rng g( seed );
  World w; world = &w;
  Y y; Y::cur = &y;
  long blocks0 = blocks.load( RLX );
  int ns = 1 + g.below( 3 ), nd = g.chance( 10 ) ? 1 : 1 + g.below( 3 );
  int np = g.below( 5 );
  bool blocking = g.chance( 60 ) && multiThreaded;
  bool exceptions = wantProp == 25 ? g.chance( 90 ) : g.chance( 40 );
  bool useAbrupt = g.chance( 15 );
  y.failPct = custom && g.chance( 40 ) ? 5 + g.below( 30 ) : 0;
  w.nSched = ns;
  w.logs.resize( ns ); w.sent.resize( ns + nd + 1 ); w.thrown.resize( ns + nd + 1 ); w.schedTask.resize( ns );
  // tasks: drivers 0..nd-1, schedulers nd..nd+ns-1, closer nd+ns
  for ( int s = 0; s < ns; ++s ) w.schedTask[ s ] = nd + s;

  // ---- programs of the drivers
  // type 0..6: Rec with that arity, 7: machine without translator, 8: with translator
  struct Op { int kind; int h; Exp e; int msg = 0, act = 0, ttl = 0, to = 0; bool stackLocal = false; };
  enum { CREATE, INITIATE, QUEUE, TERMINATE, DESTROY, WORKITEM, TOPERM, MULTICAST, YIELD };
  struct HandleInfo { int type, sched, driver; };
  std::vector< HandleInfo > hs; std::vector< Expect > expect;
  std::vector< std::vector< Op > > prog( nd );
  std::vector< std::vector< int > > markers( ns * ( nd ) );      // per (sched, driver)
  int nextMsg = 1;
  bool zeroUsed = false;
  for ( int p = 0; p < np; ++p )
  {
    Spec s; s.uid = ( int )y.specs.size(); s.sched = g.below( ns ); s.arity = 1; y.specs.push_back( s );
    hs.push_back( { g.chance( 50 ) ? 1 : ( g.chance( 50 ) ? 7 : 8 ), s.sched, -1 } );
    expect.push_back( Expect() );
    y.permSched.push_back( s.sched );
  }
  std::vector< std::unique_ptr< Target > > targets;
  struct MState { bool created = false, dead = false; bool running = false; int state = 0; std::vector< int > deferred; };
  std::vector< MState > ms( np );
  for ( int d = 0; d < nd; ++d )
  {
    int nh = 1 + g.below( 3 );
    std::vector< int > mine;
    int len = g.chance( 1 ) ? 60 + g.below( 100 ) : 3 + g.below( g.chance( 25 ) ? 30 : 12 );
    for ( int k = 0; k < nh; ++k )
    {
      int id = ( int )y.specs.size();
      HandleInfo hi; hi.type = g.chance( 35 ) ? 7 + g.below( 2 ) : g.below( 9 ); hi.sched = g.below( ns ); hi.driver = d;
      if ( hi.type == 0 ) { if ( zeroUsed ) hi.type = 1 + g.below( 6 ); else { zeroUsed = true; R::zero = id; } }
      Spec s; s.uid = id; s.sched = hi.sched; s.arity = hi.type <= 6 ? hi.type : 1;
      for ( int q = 0; q < 7; ++q ) s.expectV[ q ] = 10 + g.below( 1000 );
      if ( hi.type <= 6 && exceptions ) { s.throwCtor = g.chance( 20 ); s.throwInit = g.chance( 15 ); s.throwTerm = g.chance( 15 ); }
      targets.emplace_back( new Target ); s.ref = targets.back().get();
      y.specs.push_back( s ); hs.push_back( hi ); expect.push_back( Expect() ); ms.push_back( MState() );
      mine.push_back( id );
    }
    auto emit = [ & ]( Op o ) { prog[ d ].push_back( o ); };
    for ( int k = 0; k < len; ++k )
    {
      int h = mine[ g.below( ( int )mine.size() ) ];
      HandleInfo & hi = hs[ h ]; MState & m = ms[ h ]; Expect & x = expect[ h ];
      Op o; o.h = h;
      int r = g.below( 100 );
      if ( r < 6 ) { o.kind = YIELD; emit( o ); continue; }
      if ( r < 14 ) { o.kind = WORKITEM; o.h = g.below( ns ); o.msg = nextMsg++; markers[ o.h * nd + d ].push_back( o.msg ); emit( o ); continue; }
      if ( r < 34 && np )
      {
        o.kind = g.chance( 25 ) && np > 1 ? MULTICAST : TOPERM; o.to = g.below( np ); o.msg = nextMsg++; o.act = g.chance( 60 ) ? FORWARD : ( g.chance( 30 ) ? TRANSIT : NOTHING ); o.ttl = g.below( 4 );
        if ( useAbrupt && g.chance( 12 ) ) o.act = ABRUPT;
        emit( o ); continue;
      }
      if ( !m.created )
      {
        o.kind = CREATE; emit( o ); m.created = true;
        x.must.push_back( { CREATED, hi.type <= 6 ? hi.type : 1, false } );
        if ( hi.type <= 6 && y.specs[ h ].throwCtor ) { x.must.push_back( { CTORFAIL, 0, true } ); m.dead = true; }
        continue;
      }
      bool machine = hi.type >= 7;
      if ( machine && !m.running && !m.dead && g.chance( 60 ) ) r = 40;
      if ( r < 46 )
      {
        o.kind = INITIATE; emit( o );
        if ( m.dead ) continue;
        if ( machine )
        {
          if ( m.running ) x.must.push_back( { EXIT, m.state, false } );
          x.must.push_back( { ENTRY, 1, false } ); m.running = true; m.state = 1; m.deferred.clear();
        }
        else x.must.push_back( { INIT, 0, y.specs[ h ].throwInit } );
      }
      else if ( r < 80 )
      {
        o.kind = QUEUE; o.msg = nextMsg++; o.ttl = g.below( 4 ); o.to = np ? g.below( np ) : 0;
        int a = g.below( 100 );
        o.act = a < 40 ? NOTHING : a < 52 && exceptions ? THROW : a < 58 ? SELF_QUEUE : a < 66 ? FORWARD : a < 74 ? MARKER : a < 79 ? SELF_DESTROY : a < 90 ? TRANSIT : NOTHING;
        if ( machine && g.chance( 30 ) ) { int b = g.below( 100 ); o.act = b < 35 ? DEFER : b < 75 ? POST : !exceptions ? TRANSIT : b < 88 ? ENTRYTHROW : EXITTHROW; }
        if ( o.act == ABRUPT && !useAbrupt ) o.act = NOTHING;
        emit( o );
        if ( m.dead ) continue;
        if ( machine )
        {
          if ( !m.running ) continue;
          x.must.push_back( { EVENT, o.msg, o.act == THROW && hi.type == 7 } );
          if ( o.act == THROW ) { if ( hi.type == 7 ) m.running = false; else x.must.push_back( { MARK, 777, false } ); }
          if ( o.act == POST ) { x.must.push_back( { EVENT, o.msg + 6000000, false } ); if ( o.msg & 1 ) x.must.push_back( { EVENT, o.msg + 7000000, false } ); }
          if ( o.act == DEFER && m.state == 1 ) m.deferred.push_back( o.msg );
          if ( o.act == TRANSIT )
          {
            x.must.push_back( { EXIT, m.state, false } ); m.state = 3 - m.state; x.must.push_back( { ENTRY, m.state, false } );
            for ( int id : m.deferred ) x.must.push_back( { EVENT, id, false } );
            m.deferred.clear();
          }
          // no reaction can resolve a failure before the new state is entered: the machine ends
          if ( o.act == ENTRYTHROW || o.act == EXITTHROW ) { x.must.push_back( { EXIT, m.state, true } ); m.running = false; }
          if ( !m.running ) m.deferred.clear();
        }
        else x.must.push_back( { EVENT, o.msg, o.act == THROW } );
        if ( o.act == SELF_DESTROY && x.cut < 0 ) x.cut = ( int )x.must.size();
      }
      else if ( r < 89 )
      {
        o.kind = TERMINATE; emit( o );
        if ( m.dead ) continue;
        if ( machine ) { if ( m.running ) x.must.push_back( { EXIT, m.state, false } ); m.running = false; m.deferred.clear(); }
        else x.must.push_back( { TERM, 0, y.specs[ h ].throwTerm } );
      }
      else if ( r < 94 )
      {
        o.kind = DESTROY; emit( o );
        if ( m.dead ) continue;
        x.must.push_back( { DEAD, 0, false } ); m.dead = true;
      }
      else { o.kind = YIELD; emit( o ); }
    }
  }
  int spurious = g.chance( 35 ) ? 10 + g.below( 150 ) : 0;
  uint64_t cseed = g.next();
  bool ctorFalse = g.chance( 50 );
  for ( int s = 0; s < ns; ++s ) y.sched.emplace_back( newWorker< S >( blocking ? 2 : ctorFalse ) );
  // ---- permanent processors are created before anything runs
  for ( int p = 0; p < np; ++p )
  {
    S & s = *y.sched[ y.permSched[ p ] ];
    int t = hs[ p ].type;
    y.perm.push_back( t == 1 ? s.template create_processor< R >( p ) : t == 7 ? s.template create_processor< AsmN >( p ) : s.template create_processor< AsmT >( p ) );
    s.initiate_processor( y.perm.back() );
  }
  struct Done { int id; bool thrown; };
  std::vector< std::vector< std::pair< int, int > > > caught( ns );    // (expected, got)
  std::vector< unsigned long > returned( ns, 0 ), executedCalls( ns, 0 );
  std::atomic< int > driversDone( 0 );
  std::vector< std::atomic< int > > barrier( ns );
  std::vector< std::unique_ptr< typename S::processor_handle > > dummy;
  const int rounds = 5;
  std::vector< long > closed( ns, 0 );           // when the closing terminate() of a scheduler was called

  std::vector< std::function< void() > > tasks;
  for ( int d = 0; d < nd; ++d )
    tasks.push_back( [ &, d ]
    {
      std::map< int, typename Y::Handle > handle;
      for ( const Op & o : prog[ d ] )
      {
        if ( o.kind == YIELD ) { ds::yield(); continue; }
        if ( o.kind == WORKITEM )
        {
          typename C::Mark k = { o.h, o.msg };
          typename S::work_item i( k );
          if ( o.msg & 1 ) y.sched[ o.h ]->queue_work_item( i );
          else { const typename S::work_item & ci = i; y.sched[ o.h ]->queue_work_item( ci ); }
          continue;
        }
        if ( o.kind == TOPERM || o.kind == MULTICAST )
        {
          boost::intrusive_ptr< const sc::event_base > p( new M( o.msg, o.act, o.ttl, o.to ) );
          C::toPerm( o.to, p, o.msg, d );
          if ( o.kind == MULTICAST ) for ( int q = 1; q < np; ++q ) C::toPerm( ( o.to + q ) % np, p, o.msg, d );
          continue;
        }
        S & s = *y.sched[ hs[ o.h ].sched ];
        const Spec & sp = y.specs[ o.h ];
        switch ( o.kind )
        {
        case CREATE:
        {
          typename Y::Handle h;
          Target & t = *sp.ref;
          switch ( hs[ o.h ].type )
          {
          case 0: h = s.template create_processor< R >(); break;
          case 1: h = s.template create_processor< R >( o.h ); break;
          case 2: h = s.template create_processor< R >( o.h, Arg( sp.expectV[ 2 ] ) ); break;
          case 3: h = s.template create_processor< R >( o.h, Arg( sp.expectV[ 2 ] ), boost::ref( t ) ); break;
          case 4: h = s.template create_processor< R >( boost::ref( t ), o.h, Arg( sp.expectV[ 3 ] ), Arg( sp.expectV[ 4 ] ) ); break;
          case 5: h = s.template create_processor< R >( Arg( sp.expectV[ 1 ] ), o.h, Arg( sp.expectV[ 3 ] ), boost::ref( t ), Arg( sp.expectV[ 5 ] ) ); break;
          case 6: h = s.template create_processor< R >( Arg( sp.expectV[ 1 ] ), Arg( sp.expectV[ 2 ] ), boost::ref( t ), o.h, Arg( sp.expectV[ 5 ] ), Arg( sp.expectV[ 6 ] ) ); break;
          case 7: h = s.template create_processor< AsmN >( o.h ); break;
          default: h = s.template create_processor< AsmT >( o.h ); break;
          }
          handle[ o.h ] = h;
          break;
        }
        case INITIATE: s.initiate_processor( handle[ o.h ] ); break;
        case TERMINATE: s.terminate_processor( handle[ o.h ] ); break;
        case DESTROY: s.destroy_processor( handle[ o.h ] ); break;
        case QUEUE: { boost::intrusive_ptr< const sc::event_base > p( new M( o.msg, o.act, o.ttl, o.to ) ); s.queue_event( handle[ o.h ], p ); break; }
        }
      }
      driversDone.fetch_add( 1, RLX );
    } );
  for ( int s = 0; s < ns; ++s )
    tasks.push_back( [ &, s ]
    {
      Rng c( cseed + s * 77 );
      S & sch = *y.sched[ s ];
      int mode = c.below( 3 );
      int me = ds::self();
      while ( !sch.terminated() )
      {
        unsigned long n = mode == 0 ? 0 : mode == 1 ? 1 + c.below( 3 ) : c.below( 5 );
        size_t t0 = w.thrown[ me ].size();
        bool threw = false;
        try
        {
          unsigned long r = n || c.chance( 50 ) ? sch( n ) : sch();
          returned[ s ] += r; executedCalls[ s ]++;
          if ( n && r > n ) fastViolation( "C23", "scheduler operator()(%lu) returned %lu", n, r );
          if ( blocking && !sch.terminated() && ( n == 0 || r != n ) ) fastViolation( "C23,C22", "blocking scheduler operator()(%lu) returned %lu without termination", n, r );
          if ( r == 0 && !blocking ) ds::idle();
        }
        catch ( Boom & b ) { threw = true; caught[ s ].push_back( { w.thrown[ me ].empty() ? -1 : w.thrown[ me ].back(), b.caughtId() } ); }
        catch ( Stop & ) { throw; }
        catch ( ... ) { threw = true; caught[ s ].push_back( { w.thrown[ me ].empty() ? -1 : w.thrown[ me ].back(), -4 } ); }
        if ( caught[ s ].size() > 3000 ) { fastViolation( "C25,C23", "scheduler %d propagates exceptions endlessly", s ); w.abrupt.fetch_or( 1 << s, RLX ); break; }
        ( void )t0; ( void )threw;
      }
      if ( sch.terminated() && ( sch( 3 ) != 0 || sch() != 0 ) ) fastViolation( "C23,C22", "a terminated scheduler executed something" );
    } );
  tasks.push_back( [ & ]
  {
    while ( driversDone.load( RLX ) < nd ) ds::idle();
    for ( int r = 1; r <= rounds; ++r )
    {
      for ( int s = 0; s < ns; ++s )
      {
        std::atomic< int > * b = &barrier[ s ];
        y.sched[ s ]->queue_work_item( typename S::work_item( [ b ] { b->fetch_add( 1, RLX ); } ) );
      }
      for ( int s = 0; s < ns; ++s )
        while ( barrier[ s ].load( RLX ) < r )
        {
          // an abruptly terminated scheduler never answers
          if ( w.abrupt.load( RLX ) & ( 1 << s ) ) break;
          ds::idle();
        }
    }
    for ( int s = 0; s < ns; ++s ) { closed[ s ] = ds::stamp(); y.sched[ s ]->terminate(); }
  } );
  nFast.store( 0, RLX );
  ds::Result r = ds::run( tasks, seed, spurious );
  std::string head = fmt( "%d schedulers (%s), %d drivers, %d permanent processors, %s: ", ns, blocking ? "blocking" : "non-blocking", nd, np, custom ? "custom allocators" : "standard allocators" );
  if ( r.deadlock || r.livelock )
  {
    violation( "C22,C23,C24,C25", head + r.what );
    return;
  }
  // ---- destruction
  long procs = w.liveProc.load( RLX );
  y.sched.clear();
  for ( int k = 0, n = std::min( 16, nFast.load( RLX ) ); k < n; ++k ) violation( fast[ k ].tags, head + fast[ k ].msg );
  if ( w.liveProc.load( RLX ) ) violation( "C23", head + fmt( "%ld processors outlive their scheduler", w.liveProc.load( RLX ) ) );
  if ( w.liveEvent.load( RLX ) ) violation( "C24", head + fmt( "%ld events outlive the schedulers", w.liveEvent.load( RLX ) ) );
  if ( w.liveArg.load( RLX ) ) violation( "C23", head + fmt( "%ld constructor arguments outlive the schedulers", w.liveArg.load( RLX ) ) );
  if ( blocks.load( RLX ) != blocks0 ) violation( "C20,C24", head + fmt( "%ld blocks not returned to the custom allocator", blocks.load( RLX ) - blocks0 ) );

  int abrupt = w.abrupt.load( RLX );
  // ---- private handles
  std::vector< std::vector< Log > > per( y.specs.size() );
  std::vector< std::vector< int > > marks( ns );
  std::vector< std::vector< int > > extraMarks( ns );
  for ( int s = 0; s < ns; ++s )
    for ( const Log & l : w.logs[ s ] )
    {
      if ( l.uid == -1 ) { marks[ s ].push_back( l.value ); continue; }
      if ( y.specs[ l.uid ].sched != s ) violation( "C23", head + fmt( "processor %d was used by scheduler %d", l.uid, s ) );
      per[ l.uid ].push_back( l );
    }
  long events = 0, excs = 0, entries = 0;
  std::map< int, std::set< int > > exceptionIds;
  for ( size_t h = np; h < per.size(); ++h )
  {
    const Expect & x = expect[ h ];
    bool cutShort = ( abrupt >> hs[ h ].sched ) & 1;
    std::vector< Log > got;
    int deaths = 0;
    std::set< int > nestedSeen;
    for ( const Log & l : per[ h ] )
    {
      if ( l.kind == EVENT ) ++events;
      if ( l.kind == ENTRY ) ++entries;
      if ( l.kind == EVENT && l.value >= 500000 && l.value < 2000000 )
      {
        if ( !nestedSeen.insert( l.value ).second ) violation( "C24", head + fmt( "processor %zu processed event %d twice", h, l.value ) );
        bool parent = false;
        for ( const Log & p : got ) if ( p.kind == EVENT && p.value == l.value - 500000 ) parent = true;
        if ( !parent ) violation( "C24", head + fmt( "processor %zu processed an event it never sent itself (%d)", h, l.value ) );
        continue;
      }
      if ( l.kind == DEAD ) { ++deaths; if ( deaths > 1 ) violation( "C23", head + fmt( "processor %zu destroyed %d times", h, deaths ) ); }
      got.push_back( l );
    }
    bool created = !got.empty();
    bool failed = hs[ h ].type <= 6 && y.specs[ h ].throwCtor;
    if ( created && !failed && deaths != 1 ) violation( "C23", head + fmt( "processor %zu was destroyed %d times", h, deaths ) );
    if ( failed && deaths ) violation( "C23", head + fmt( "processor %zu whose constructor threw was destroyed", h ) );
    // compare
    size_t k = 0, n = x.must.size();
    for ( ; k < n && k < got.size(); ++k )
      if ( got[ k ].kind != x.must[ k ].kind || got[ k ].value != x.must[ k ].value ) break;
    bool ok;
    if ( k == got.size() ) ok = k == n || ( n && k == 0 && cutShort ) || ( cutShort && !created );
    else if ( got[ k ].kind == DEAD && k + 1 == got.size() )
      ok = k == n || cutShort || ( x.cut >= 0 && ( int )k >= x.cut );
    else ok = false;
    if ( k == got.size() && k < n && cutShort && failed ) ok = true;
    if ( !ok )
    {
      std::string e, o2;
      for ( auto & z : x.must ) e += fmt( " %s %d", kindName[ z.kind ], z.value );
      for ( auto & z : got ) o2 += fmt( " %s %d", kindName[ z.kind ], z.value );
      bool afterThrow = false;
      for ( size_t q = 0; q < k && q < n; ++q ) if ( x.must[ q ].throws ) afterThrow = true;
      violation( afterThrow ? "C23,C24,C25" : "C23,C24", head + fmt( "processor %zu (type %d, scheduler %d)%s: operations%s; observed%s (differ at %zu)", h, hs[ h ].type, hs[ h ].sched,
        cutShort ? " (scheduler terminated early)" : "", e.c_str(), o2.c_str(), k ) );
    }
    for ( size_t q = 0; q < k && q < n; ++q ) if ( x.must[ q ].throws ) ++excs;
    if ( hs[ h ].type >= 3 && hs[ h ].type <= 6 && created && y.specs[ h ].ref->hits.load( RLX ) != 1 )
      if ( !( failed ) ) violation( "C23", head + fmt( "by-reference argument of processor %zu was used %d times", h, y.specs[ h ].ref->hits.load( RLX ) ) );
  }
  // ---- permanent processors: exactly once, in order
  std::vector< Sent > all;
  for ( auto & v : w.sent ) for ( auto & s : v ) all.push_back( s );
  for ( int p = 0; p < np; ++p )
  {
    bool cutShort = ( abrupt >> y.permSched[ p ] ) & 1;
    std::map< int, std::vector< Sent > > want;
    std::vector< Sent > toMe;
    for ( auto & s : all ) if ( s.to == p ) { want[ s.msg ].push_back( s ); toMe.push_back( s ); }
    std::vector< int > order;
    int created = 0, dead = 0;
    for ( auto & l : per[ p ] )
    {
      if ( l.kind == EVENT ) { order.push_back( l.value ); ++events; }
      if ( l.kind == CREATED ) ++created;
      if ( l.kind == DEAD ) ++dead;
    }
    if ( created != 1 || dead != 1 ) { if ( !( cutShort && created == dead && created <= 1 ) ) violation( "C23", head + fmt( "permanent processor %d constructed %d and destroyed %d times", p, created, dead ) ); }
    std::map< int, std::vector< int > > at;
    for ( size_t k = 0; k < order.size(); ++k ) at[ order[ k ] ].push_back( ( int )k );
    for ( auto & a : at )
      if ( a.second.size() > want[ a.first ].size() ) violation( "C24", head + fmt( "processor %d processed event %d %zu times, it was sent %zu times", p, a.first, a.second.size(), want[ a.first ].size() ) );
    if ( !cutShort )
      for ( auto & q : want )
      {
        size_t late = 0;                          // sent when the receiver may already have been terminated
        for ( auto & z : q.second ) if ( z.ret > closed[ y.permSched[ p ] ] ) ++late;
        if ( at[ q.first ].size() + late < q.second.size() ) violation( "C24", head + fmt( "event %d sent to processor %d %zu times, processed %zu times", q.first, p, q.second.size(), at[ q.first ].size() ) );
      }
    // real-time (and therefore per-sender) order among events sent once
    bool bad = false;
    for ( size_t a = 0; a < toMe.size() && !bad; ++a )
      for ( size_t b = 0; b < toMe.size() && !bad; ++b )
      {
        if ( a == b || !( toMe[ a ].ret < toMe[ b ].start ) || want[ toMe[ a ].msg ].size() != 1 || want[ toMe[ b ].msg ].size() != 1 ) continue;
        auto & pa = at[ toMe[ a ].msg ]; auto & pb = at[ toMe[ b ].msg ];
        if ( pb.empty() ) continue;
        if ( pa.empty() || pb[ 0 ] < pa[ 0 ] )
        {
          bad = true;
          violation( "C24", head + fmt( "processor %d processed event %d (sent during [%ld,%ld]) %s event %d (sent during [%ld,%ld])", p, toMe[ b ].msg, toMe[ b ].start, toMe[ b ].ret,
            pa.empty() ? "but never" : "before", toMe[ a ].msg, toMe[ a ].start, toMe[ a ].ret ) );
        }
      }
  }
  // ---- work items
  for ( int s = 0; s < ns; ++s )
  {
    std::map< int, int > cnt;
    for ( int m : marks[ s ] ) if ( ++cnt[ m ] > 1 ) violation( "C23", head + fmt( "work item %d of scheduler %d executed twice", m, s ) );
    for ( int d = 0; d < nd; ++d )
    {
      auto & mk = markers[ s * nd + d ];
      size_t k = 0;
      for ( int m : marks[ s ] ) if ( std::find( mk.begin(), mk.end(), m ) != mk.end() ) { if ( k >= mk.size() || mk[ k ] != m ) { violation( "C23", head + fmt( "work items of driver %d executed out of order by scheduler %d", d, s ) ); break; } ++k; }
      if ( k < mk.size() && !( ( abrupt >> s ) & 1 ) ) violation( "C23", head + fmt( "work item %d was not executed by scheduler %d", mk[ k ], s ) );
    }
  }
  // ---- exceptions
  for ( int s = 0; s < ns; ++s )
  {
    // every exception thrown under operator() and not translated left it, unchanged and once
    std::vector< int > th = w.thrown[ nd + s ], gotIds;
    for ( auto & c : caught[ s ] )
    {
      if ( c.first != c.second ) violation( "C25", head + fmt( "scheduler %d propagated exception %d, last thrown was %d", s, c.second, c.first ) );
      gotIds.push_back( c.second );
    }
    excs += gotIds.size();
    std::vector< int > must;
    for ( int id : th )
    {
      // thrown by a machine with a translator?
      bool translated = false;
      for ( size_t h = 0; h < per.size(); ++h ) if ( hs[ h ].type == 8 ) for ( auto & l : per[ h ] ) if ( l.kind == EVENT && l.value == id ) translated = true;
      if ( !translated ) must.push_back( id );
    }
    if ( must != gotIds ) violation( "C25", head + fmt( "scheduler %d: %zu exceptions left processors, %zu left operator()", s, must.size(), gotIds.size() ) );
  }
  counters[ "episodes" ]++; counters[ "events_processed" ] += events; counters[ "exceptions_propagated" ] += excs; counters[ "state_entries" ] += entries;
  counters[ "schedulers" ] += ns; counters[ "processors" ] += ( long )per.size(); counters[ "scheduler_switches" ] += r.switches; counters[ "condition_waits" ] += r.waits;
  counters[ "spurious_wakeups" ] += r.spurious; counters[ "contended_locks" ] += r.contended; counters[ "messages_to_shared_processors" ] += all.size();
  counters[ "scheduling_steps" ] += r.steps; counters[ "abrupt_terminations" ] += abrupt != 0; counters[ "processors_alive_at_end" ] += procs;
  counters[ "failed_sends" ] += y.failedSends.load( RLX );
  uint64_t hsh = r.hash;
  if ( realThreads ) { hsh = 1469598103934665603ull; for ( auto & lg : w.logs ) for ( auto & l : lg ) hsh = mix( mix( hsh, l.uid + 2 ), l.kind * 1000003 + l.value ); }
  bool relevant = wantProp == 25 ? excs > 0 : wantProp == 24 ? !all.empty() : true;
  if ( relevant ) keys.insert( fmt( "B%016lx", ( unsigned long )hsh ) );
  if ( verbose )
    for ( int s = 0; s < ns; ++s ) for ( auto & l : w.logs[ s ] ) fprintf( stderr, "sched %d: processor %d %s %d @%ld task %d\n", s, l.uid, kindName[ l.kind ], l.value, l.stamp, l.task );
}
} // namespace B
#endif

// ======================================================================
static void oneEpisode( const std::string & scenario, uint64_t seed )
{
  Rng g( seed ^ 0x77 );
  bool custom = g.chance( 40 );
#if !defined( ONLY ) || ONLY == 1
  if ( scenario == "worker" )
  {
    if ( custom ) A::episode< TA< sc::none > >( seed, true );
    else A::episode< std::allocator< sc::none > >( seed, false );
  }
#endif
#if !defined( ONLY ) || ONLY == 2
  if ( scenario != "worker" )
  {
    typedef TA< sc::none > T; typedef std::allocator< sc::none > D;
    if ( custom ) B::episode< sc::fifo_scheduler< sc::fifo_worker< T >, T >, T, T >( seed, true );
    else B::episode< sc::fifo_scheduler<>, D, D >( seed, false );
  }
#endif
}

static uint64_t episodeSeed( uint64_t base, long k ) { uint64_t x = base * 6364136223846793005ull + ( uint64_t )k * 1442695040888963407ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }

struct Progress { std::atomic< long > episode; std::atomic< long > beat; };

int main( int argc, char ** argv )
{
  std::string scenario = "worker", outName, errName;
  uint64_t seed = 1; long from = 0, episodes = 100, maxV = 5; int timeout = 60, pin = -1;
  for ( int k = 1; k < argc; ++k )
  {
    std::string a = argv[ k ]; auto v = [ & ] { return std::string( argv[ ++k ] ); };
    if ( a == "--scenario" ) scenario = v(); else if ( a == "--seed" ) seed = strtoull( v().c_str(), 0, 10 );
    else if ( a == "--from" ) from = atol( v().c_str() ); else if ( a == "--episodes" ) episodes = atol( v().c_str() );
    else if ( a == "--out" ) outName = v(); else if ( a == "--want" ) wantProp = atoi( v().c_str() );
    else if ( a == "--pin" ) pin = atoi( v().c_str() );
    else if ( a == "--verbose" ) verbose = true; else if ( a == "--timeout" ) timeout = atoi( v().c_str() );
    else if ( a == "--max-violations" ) maxV = atol( v().c_str() );
  }
  if ( !outName.empty() ) out = fopen( outName.c_str(), "w" );
  if ( !out ) return 3;
  setvbuf( out, 0, _IOLBF, 0 );
  errName = outName.empty() ? "/tmp/harness.err" : outName + ".err";
  Progress * pr = ( Progress * )mmap( 0, sizeof( Progress ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
  std::string tags = scenario == "worker" ? "C21,C22,C25" : "C23,C24,C25";
  if ( wantProp )
  {
    char b[ 8 ]; snprintf( b, sizeof b, "C%02d", wantProp );
    if ( tags.find( b ) == std::string::npos ) tags += std::string( "," ) + b;
  }
  long nv = 0; long k = from, end = from + episodes; long retried = -1;
  while ( k < end && nv < maxV )
  {
    fflush( out );
    pr->episode = k;
    pid_t pid = fork();
    if ( pid < 0 ) return 3;
    if ( pid == 0 )
    {
      if ( pin >= 0 )
      {
        cpu_set_t all, one; CPU_ZERO( &all ); CPU_ZERO( &one );
        if ( !sched_getaffinity( 0, sizeof all, &all ) )
        {
          int n = CPU_COUNT( &all ), want = n ? pin % n : 0;
          for ( int c = 0; c < CPU_SETSIZE; ++c ) if ( CPU_ISSET( c, &all ) && want-- == 0 ) { CPU_SET( c, &one ); sched_setaffinity( 0, sizeof one, &one ); break; }
        }
      }
      if ( !verbose ) { int fd = open( errName.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); if ( fd >= 0 ) dup2( fd, 2 ); }
      long cnt = 0;
      for ( long e = k; e < end && cnt < maxV; ++e )
      {
        pr->episode.store( e ); pr->beat.fetch_add( 1 );
        curEpisode = e;
        found.clear();
        oneEpisode( scenario, episodeSeed( seed, e ) );
        std::set< std::string > seen;
        for ( auto & v : found )
          if ( seen.insert( v.tags ).second ) { fprintf( out, "V\t%s\t%s\t%ld\t%s\n", v.tags.c_str(), scenario.c_str(), e, esc( v.msg ).c_str() ); ++cnt; }
        // a run that got stuck leaves threads behind
        for ( auto & v : found ) if ( v.msg.find( "no task can run" ) != std::string::npos || v.msg.find( "step limit" ) != std::string::npos )
        {
          for ( auto & c : counters ) fprintf( out, "N\t%s\t%ld\n", c.first.c_str(), c.second );
          fflush( out ); _exit( 42 );
        }
      }
      for ( auto & c : counters ) fprintf( out, "N\t%s\t%ld\n", c.first.c_str(), c.second );
      for ( auto & s : keys ) fprintf( out, "K\t%d\t%s\n", wantProp, s.c_str() );
      fflush( out );
      pr->episode.store( end );
      exit( cnt ? 41 : 0 );                       // leak check runs here
    }
    int st = 0; long last = -1; int idle = 0; bool hung = false;
    for ( ;; )
    {
      pid_t w = waitpid( pid, &st, WNOHANG );
      if ( w == pid ) break;
      long b = pr->beat.load();
      if ( b != last ) { last = b; idle = 0; } else if ( ++idle > timeout * 50 ) { hung = true; kill( pid, SIGKILL ); waitpid( pid, &st, 0 ); break; }
      usleep( 20000 );
    }
    long e = pr->episode.load();
    if ( hung )
    {
      if ( retried != e ) { retried = e; k = e; continue; }
      fprintf( out, "V\t%s\t%s\t%ld\thung: no progress within %d s, twice\n", tags.c_str(), scenario.c_str(), e, timeout );
      nv = maxV; break;
    }
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { k = end; break; }
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 41 ) { nv = maxV; k = end; break; }
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 42 ) { ++nv; k = e + 1; continue; }
    // sanitizer report or crash
    std::string text; FILE * f = fopen( errName.c_str(), "r" );
    if ( f ) { char b[ 4096 ]; size_t n = fread( b, 1, sizeof b - 1, f ); b[ n ] = 0; text = b; fclose( f ); }
    if ( text.size() > 1800 ) text.resize( 1800 );
    bool leak = e >= end;
    fprintf( out, "V\t%s\t%s\t%ld\t%s (status %d): %s\n", tags.c_str(), scenario.c_str(), leak ? from : e, leak ? "the process did not end cleanly" : "the episode crashed", st, esc( text ).c_str() );
    ++nv; k = leak ? end : e + 1;
  }
  fprintf( out, "DONE\n" );
  fclose( out );
  unlink( errName.c_str() );
  return nv ? 1 : 0;
}
