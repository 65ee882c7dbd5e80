#include "alloc.hpp"
#include "rt.hpp"
#include "model.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#if defined( __has_feature )
#  if __has_feature( address_sanitizer )
#    define HAS_ASAN 1
#  endif
#endif
#ifdef __SANITIZE_ADDRESS__
#  define HAS_ASAN 1
#endif
#ifdef HAS_ASAN
extern "C" int __lsan_do_recoverable_leak_check();
extern "C" int __sanitizer_install_malloc_and_free_hooks( void (*)( const volatile void *, std::size_t ), void (*)( const volatile void * ) );
#endif

using namespace trace;

namespace rt {

// ------------------------------------------------------------------- PRNG
struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t x = 1 ) : s( x * 0x9e3779b97f4a7c15ull + 0x1234567 ) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
  }
  int below( int n ) { return n <= 1 ? 0 : int( next() % ( uint64_t )n ); }
  bool permille( int p ) { return p > 0 && below( 1000 ) < p; }
};

// ---------------------------------------------------------------- profile
struct Profile
{
  // throws, per mille of the respective callbacks
  int tctor = 0, texit = 0, tact = 0, treact = 0, tunc = 0, texcB = 200;
  // reaction decision weights, normal events
  int wdiscard = 10, wforward = 25, wdefer = 10, wterm = 5, wtrans = 50;
  // while an exception event is processed
  int hdiscard = 10, hforward = 30, hdefer = 5, hterm = 15, htrans = 40;
  // user actions inside callbacks, per mille
  int post = 120, clear = 20, ctx = 40, query = 8, nest = 0, trigq = 50;
  int postbudget = 10;
  int burst = 0;              // per mille of callbacks and post calls that post dozens of events
  // API operation weights
  int oproc = 100, oterm = 3, oinit = 4, opost = 8, oclear = 2, orecreate = 1;
  int opquery = 60;          // per mille: observers after a call
  int ops = 40;
  int instances = 1;
  int held = 150;             // per mille of processed events taken from/kept in a pool
  int heap = 400;             // per mille heap events
  int allocfail = 0;          // allocation failure mode
  int diffRestart = 0;        // C19 differential mode
  void set( const std::string & k, int v )
  {
#define F( n ) if ( k == #n ) { n = v; return; }
    F( tctor ) F( texit ) F( tact ) F( treact ) F( tunc ) F( texcB ) F( wdiscard ) F( wforward ) F( wdefer ) F( wterm )
    F( wtrans ) F( hdiscard ) F( hforward ) F( hdefer ) F( hterm ) F( htrans ) F( post ) F( clear ) F( ctx ) F( query )
    F( nest ) F( trigq ) F( postbudget ) F( burst ) F( oproc ) F( oterm ) F( oinit ) F( opost ) F( oclear ) F( orecreate ) F( opquery )
    F( ops ) F( instances ) F( held ) F( heap ) F( allocfail ) F( diffRestart )
#undef F
    fprintf( stderr, "unknown profile key %s\n", k.c_str() ); exit( 3 );
  }
};

// --------------------------------------------------------------- instances
struct Inst
{
  IMachine * m = 0;
  const ChartEntry * ce = 0;
  int mid = 0;
  Rng rng{ 1 };
  int budget = 0;
  bool inCall = false;
  std::vector< EvPtr > pool;
};

struct Ctx                       // one recording context per thread
{
  Buf * buf = 0;
  Inst * cur = 0;
  int nextUid = 1, nextIid = 1, nextExc = 1;
  const Profile * p = 0;
  std::vector< Inst * > insts;
  Rng nestRng{ 77 };
  int depth = 0;
  long excLive = 0;
  bool quietEvents = false;
};
static thread_local Ctx * g = 0;

// Memory the library obtains while it works for a machine with the tracking
// allocator must come from that allocator or be an event object (whose class
// brings its own). libScope is on while library code runs, off in callbacks.
static thread_local bool libScope = false;
struct Scope { bool old; explicit Scope( bool lib ) : old( libScope ) { libScope = lib && g && g->cur && g->cur->ce && g->cur->ce->d->alloc; } ~Scope() { libScope = old; } };
struct Foreign { const volatile char * p; std::size_t n; };
static Foreign foreign[ 16 ]; static int nForeign = 0;
#ifdef HAS_ASAN
static void mallocHook( const volatile void * p, std::size_t n )
{ if ( libScope && nForeign < 16 ) { foreign[ nForeign ].p = ( const volatile char * )p; foreign[ nForeign ].n = n; ++nForeign; } }
static void freeHook( const volatile void * ) {}
#endif
static void isEvent( const void * p )
{
  for ( int k = 0; k < nForeign; ++k )
    if ( ( const volatile char * )p >= foreign[ k ].p && ( const volatile char * )p < foreign[ k ].p + foreign[ k ].n ) { foreign[ k ] = foreign[ --nForeign ]; return; }
}

[[noreturn]] static void runaway()
{
  // trace limit exceeded: the parent treats this like a death of the process
  _exit( 78 );
}

void rec( int kind, int a, int b, const void * p, long q )
{
  Buf * bf = g->buf;
  uint64_t n = bf->n;
  if ( n >= bf->cap ) runaway();
  Rec & r = bf->r[ n ];
  r.kind = ( uint8_t )kind; r.mid = g->cur ? ( uint8_t )g->cur->mid : 0; r.a = ( int16_t )a; r.b = b; r.p = p; r.q = q;
  bf->n = n + 1;
}

std::vector< ChartEntry > & charts() { static std::vector< ChartEntry > v; return v; }
void registerChart( const ChartEntry & e ) { charts().push_back( e ); }

// ------------------------------------------------------------------ events
int freshUid() { return g ? g->nextUid++ : 0; }
static uint64_t pattern( int uid, int cls ) { return 0x9e3779b97f4a7c15ull * ( uint64_t )( uid + 17 ) ^ ( uint64_t )cls; }
EvCommon::EvCommon( int c, int u ) : cls( c ), uid( u ), iid( g->nextIid++ ), pat( pattern( u, c ) )
{ rec( K_EVNEW, cls, uid, this, iid ); isEvent( this ); }
EvCommon::EvCommon( const EvCommon & o ) : cls( o.cls ), uid( o.uid ), iid( g->nextIid++ ), pat( o.pat )
{ rec( K_EVCOPY, cls, o.iid, this, iid ); isEvent( this ); }
EvCommon::~EvCommon()
{
  rec( K_EVDTOR, intact(), uid, this, iid );
  pat = 0xdeadbeefdeadbeefull; uid = -uid;
}
static const EvCommon * common( const sc::event_base & e ) { return dynamic_cast< const EvCommon * >( &e ); }
static int iidOf( const sc::event_base * e )
{
  if ( !e ) return 0;
  const EvCommon * c = common( *e );
  return c ? c->iid : -7;
}

static EvPtr heapEvent( int cls )
{
  int u = g->nextUid++;
  switch ( cls )
  {
  case 0: return EvPtr( new E0( u ) );
  case 1: return EvPtr( new E1( u ) );
  case 2: return EvPtr( new E2( u ) );
  case 3: return EvPtr( new E3( u ) );
  default: return EvPtr( new E4( u ) );
  }
}
template< class F > static void stackEvent( int cls, F f )
{
  int u = g->nextUid++;
  switch ( cls )
  {
  case 0: { E0 e( u ); f( e ); break; }
  case 1: { E1 e( u ); f( e ); break; }
  case 2: { E2 e( u ); f( e ); break; }
  case 3: { E3 e( u ); f( e ); break; }
  default: { E4 e( u ); f( e ); break; }
  }
}

// --------------------------------------------------------------- callbacks
static int trigOf( Poster * p ) { return p ? iidOf( p->trig() ) : -1; }

static void apiOp( Inst & in, bool nested );

static void postSomething( Poster * p, Inst & in )
{
  if ( in.budget <= 0 ) return;
  --in.budget;
  Rng & r = in.rng;
  int cls = r.below( nNormalEv );
  int mode = r.below( 10 );
  if ( mode < 5 )
    stackEvent( cls, [ & ]( const sc::event_base & e ) { rec( K_POST, 0, common( e )->uid, 0, common( e )->iid ); Scope l( true ); p->postRef( e ); } );
  else if ( mode < 7 || in.pool.empty() )
  {
    EvPtr e = heapEvent( cls );
    rec( K_POST, 1, common( *e )->uid, 0, common( *e )->iid );
    Scope l( true );
    p->post( e );
  }
  else if ( mode < 8 )
  {
    // a counted event posted through the reference overload
    EvPtr e = heapEvent( cls );
    rec( K_POST, 1, common( *e )->uid, 0, common( *e )->iid );
    Scope l( true );
    p->postRef( *e );
  }
  else
  {
    // an event object that is possibly queued already
    EvPtr e = in.pool[ r.below( ( int )in.pool.size() ) ];
    rec( K_POST, 1, common( *e )->uid, 0, common( *e )->iid );
    Scope l( true );
    p->post( e );
  }
}

// once per API call at most
static bool burst( Poster * p, Inst & in )
{
  if ( !g->p->burst || in.budget <= 0 || !in.rng.permille( g->p->burst ) ) return false;
  // now and then more than what fits into a byte
  bool many = in.rng.below( 8 ) == 0;
  int n = many ? 257 + in.rng.below( 60 ) : 12 + in.rng.below( 60 );
  if ( in.rng.below( 3 ) == 0 )
  {
    // the same object again and again
    EvPtr e = in.pool.empty() || in.rng.below( 2 ) ? heapEvent( in.rng.below( nNormalEv ) ) : in.pool[ in.rng.below( ( int )in.pool.size() ) ];
    for ( int k = 0; k < n; ++k )
    {
      rec( K_POST, 1, common( *e )->uid, 0, common( *e )->iid );
      Scope l( true );
      p->post( e );
    }
  }
  else
    for ( int k = 0; k < n; ++k ) { in.budget = 1; postSomething( p, in ); }
  in.budget = 0;
  return true;
}

static int ancestors( const desc::Chart & d, int s ) { int n = 0; while ( s >= 0 ) { ++n; s = d.st[ s ].parent; } return n; } // incl. itself

static void userActions( int state, Poster * p, bool mayPost, bool stable )
{
  Inst & in = *g->cur;
  const Profile & pf = *g->p;
  Rng & r = in.rng;
  if ( p && mayPost )
  {
    if ( !burst( p, in ) ) for ( int k = 0; k < 3 && r.permille( pf.post ); ++k ) postSomething( p, in );
    if ( in.ce->d->nHist && r.permille( pf.clear ) )
    {
      int k = r.below( in.ce->d->nHist );
      rec( K_CLEARH, k );
      Scope l( true );
      p->clearHist( k );
    }
  }
  if ( p && state >= 0 && r.permille( pf.ctx ) )
  {
    int n = ancestors( *in.ce->d, state );
    for ( int k = 0; k <= n; ++k )
    {
      if ( k == n && !in.m->alive ) continue;
      for ( int v = 0; v < ( k == n ? 4 : 3 ); ++v )
        rec( K_CTX, k == n ? -1 : k, v, p->ctx( k, v ) );
    }
    // a base class several contexts may have in common: the innermost of them
    for ( int j = 0; j < desc::nIfc; ++j )
    {
      int x = state;
      while ( x >= 0 && !( in.ce->d->st[ x ].ifcMask >> j & 1 ) ) x = in.ce->d->st[ x ].parent;
      if ( x < 0 && !( ( in.ce->d->machineIfc >> j & 1 ) && in.m->alive ) ) continue;
      for ( int v = 0; v < 2; ++v ) rec( K_CTX, 100 + j, v, p->ctx( n + 1 + j, v ) );
    }
  }
  if ( p && mayPost && r.permille( pf.trigq ) )
  {
    rec( K_QTRIG, 0, iidOf( in.m->poster().trig() ) );
    rec( K_QTRIG, 0, iidOf( p->trig() ) );
  }
  if ( stable && r.permille( pf.query ) ) { if ( p && r.below( 2 ) ) p->query(); else in.m->query(); }
  if ( pf.nest && mayPost && g->depth < 3 && g->nestRng.permille( pf.nest ) && g->insts.size() > 1 )
  {
    Inst * o = g->insts[ g->nestRng.below( ( int )g->insts.size() ) ];
    if ( o != g->cur && !o->inCall )
    {
      Inst * save = g->cur;
      apiOp( *o, true );
      g->cur = save;
    }
  }
}

static void maybeThrow( int pm )
{
  Inst & in = *g->cur;
  if ( in.rng.permille( pm ) )
  {
    int id = g->nextExc++;
    if ( in.rng.permille( g->p->texcB ) )
    {
      rec( K_END, 2, id );
      switch ( id % 3 ) { case 0: throw id; case 1: throw ExcB( id ); default: throw ExcBD( id ); }
    }
    rec( K_END, 1, id );
    if ( id % 2 ) throw ExcAD( id );
    throw ExcA( id );
  }
}

void enter( int state, const void * self, Poster * p )
{
  Scope u( false );
  rec( K_ENTER, state, trigOf( p ), self );
  userActions( state, p, true, false );
  maybeThrow( g->p->tctor );
  rec( K_END, 0 );
}
void exit_( int state, const void * self, Poster * p )
{
  Scope u( false );
  rec( K_EXIT, state, trigOf( p ), self );
  userActions( state, p, true, false );
  maybeThrow( g->p->texit );
  rec( K_END, 0 );
}
void dtor( int state, const void * self, Poster * p )
{
  Scope u( false );
  rec( K_DTOR, state, -1, self );
  userActions( state, p, false, false );
  rec( K_END, 0 );
}
void act( int c, const void * self, const sc::event_base & e, Poster * p )
{
  Scope u( false );
  rec( K_ACT, c, trigOf( p ), self, iidOf( &e ) );
  userActions( c, p, true, false );
  maybeThrow( g->p->tact );
  rec( K_END, 0 );
}
void unconsumed( const sc::event_base & e, Poster * p )
{
  Scope u( false );
  rec( K_UNCONS, -1, -1, dynamic_cast< const void * >( g->cur->m ), iidOf( &e ) );
  userActions( -1, p, true, true );
  maybeThrow( g->p->tunc );
  rec( K_END, 0 );
}
int react( int state, const void * self, const sc::event_base & e, Poster * p )
{
  Scope u( false );
  Inst & in = *g->cur;
  const Profile & pf = *g->p;
  rec( K_REACT, state, trigOf( p ), self, iidOf( &e ) );
  const EvCommon * ec = common( e );
  bool exc = ec && ec->cls >= nNormalEv;
  userActions( state, p, true, !exc );
  maybeThrow( pf.treact );
  const desc::State & d = in.ce->d->st[ state ];
  int w[ 64 ], sum = 0, n = d.nOpt < 64 ? d.nOpt : 64, ntr = 0;
  for ( int k = 0; k < n; ++k ) if ( d.opt[ k ].type == desc::R_TRANS ) ++ntr;
  for ( int k = 0; k < n; ++k )
  {
    int x = 0;
    switch ( d.opt[ k ].type )
    {
    case desc::R_DISCARD: x = 100 * ( exc ? pf.hdiscard : pf.wdiscard ); break;
    case desc::R_FORWARD: x = 100 * ( exc ? pf.hforward : pf.wforward ); break;
    case desc::R_DEFER: x = 100 * ( exc ? pf.hdefer : pf.wdefer ); break;
    case desc::R_TERM: x = 100 * ( exc ? pf.hterm : pf.wterm ); break;
    default: x = 100 * ( exc ? pf.htrans : pf.wtrans ) / ( ntr ? ntr : 1 ); break;
    }
    w[ k ] = x; sum += x;
  }
  int pick = in.rng.below( sum ), k = 0;
  while ( k < n - 1 && pick >= w[ k ] ) { pick -= w[ k ]; ++k; }
  rec( K_END, 0, 0, 0, k );
  return k;
}

// --------------------------------------------------------- tracking allocator
namespace {
struct Block { std::size_t n, size; const std::type_info * ti; };
std::unordered_map< void *, Block > & blocks() { static std::unordered_map< void *, Block > * b = new std::unordered_map< void *, Block >; return *b; }
AllocStats stats = { 0, 0, 0, 0, 0, 0 };
bool concurrent = false;              // several threads: only count, and synchronise nothing
std::atomic< long > concurrentLive( 0 );
}
AllocStats & allocStats() { return stats; }
void * trackAlloc( std::size_t n, std::size_t size, const std::type_info & ti )
{
  Scope u( false );
  if ( concurrent ) { concurrentLive.fetch_add( 1, std::memory_order_relaxed ); return ::operator new( n * size ); }
  ++stats.allocs;
  if ( stats.failAt && --stats.failAt == 0 ) { ++stats.failed; if ( g && g->buf ) rec( K_ALLOCFAIL, 0 ); throw std::bad_alloc(); }
  void * p = ::operator new( n * size );
  Block b = { n, size, &ti };
  blocks()[ p ] = b;
  ++stats.live;
  return p;
}
void trackFree( void * p, std::size_t n, std::size_t size, const std::type_info & ti )
{
  Scope u( false );
  if ( concurrent ) { concurrentLive.fetch_sub( 1, std::memory_order_relaxed ); ::operator delete( p ); return; }
  auto f = blocks().find( p );
  if ( f == blocks().end() )
  {
    ++stats.errors; stats.lastError = "block freed to the allocator that never came from it (or twice)";
    ::operator delete( p );
    return;
  }
  if ( f->second.n != n || f->second.size != size || !( *f->second.ti == ti ) )
  { ++stats.errors; stats.lastError = "block freed with a different element type or count"; }
  blocks().erase( f );
  --stats.live;
  ::operator delete( p );
}

// ------------------------------------------------------------------ driver
template< class F > static void guarded( F f )
{
  try { Scope l( true ); f(); rec( K_APIEND, 0 ); }
  catch ( const ExcA & x ) { rec( K_APIEND, typeid( x ) == ( x.id % 2 ? typeid( ExcAD ) : typeid( ExcA ) ) ? 1 : 4, x.id ); }
  catch ( const ExcB & x ) { rec( K_APIEND, typeid( x ) == ( x.id % 3 == 2 ? typeid( ExcBD ) : typeid( ExcB ) ) && x.id % 3 ? 2 : 4, x.id ); }
  catch ( int id ) { rec( K_APIEND, id % 3 ? 4 : 2, id ); }
  catch ( const std::bad_alloc & ) { rec( K_APIEND, 3 ); }
  catch ( ... ) { rec( K_APIEND, 4 ); }
}

static void create( Inst & in )
{
  g->cur = &in;
  in.m = in.ce->make();
  in.m->mid = in.mid;
  rec( K_MCREATE, 0, 0, dynamic_cast< const void * >( in.m ) );
}
static void destroy( Inst & in )
{
  g->cur = &in;
  rec( K_MDESTROY, 0 );
  { Scope l( true ); delete in.m; }
  in.m = 0;
  rec( K_MDESTROYED, 0 );
}

static void doInitiate( Inst & in )
{
  in.budget = g->p->postbudget;
  rec( K_API, OP_INITIATE );
  guarded( [ & ] { in.m->initiate_(); } );
}

static void doProcess( Inst & in )
{
  const Profile & pf = *g->p;
  Rng & r = in.rng;
  in.budget = pf.postbudget;
  int cls = r.below( nNormalEv );
  auto call = [ & ]( const sc::event_base & e, int counted )
  {
    rec( K_API, OP_PROCESS, common( e )->uid, 0, ( long )common( e )->iid * 2 + counted );
    guarded( [ & ] { in.m->process_( e ); } );
  };
  if ( !in.pool.empty() && r.permille( pf.held ) )
  {
    EvPtr e = in.pool[ r.below( ( int )in.pool.size() ) ];
    call( *e, 1 );
  }
  else if ( r.permille( pf.heap ) )
  {
    EvPtr e = heapEvent( cls );
    if ( r.permille( pf.held ) ) { if ( in.pool.size() < 4 ) in.pool.push_back( e ); else in.pool[ r.below( 4 ) ] = e; }
    call( *e, 1 );
  }
  else stackEvent( cls, [ & ]( const sc::event_base & e ) { call( e, 0 ); } );
}

static void apiOp( Inst & in, bool nested )
{
  const Profile & pf = *g->p;
  Rng & r = in.rng;
  Inst * save = g->cur;
  g->cur = &in;
  in.inCall = true;
  ++g->depth;
  bool term = in.m->terminated_();
  int wi = term ? 60 : pf.oinit, wp = pf.oproc, wt = pf.oterm, wo = pf.opost, wc = in.ce->d->nHist ? pf.oclear : 0, wr = nested ? 0 : pf.orecreate;
  if ( term ) wp = wp / 8 + 1;
  int pick = r.below( wi + wp + wt + wo + wc + wr );
  if ( ( pick -= wi ) < 0 ) doInitiate( in );
  else if ( ( pick -= wp ) < 0 ) doProcess( in );
  else if ( ( pick -= wt ) < 0 )
  {
    in.budget = pf.postbudget;
    rec( K_API, OP_TERMINATE );
    guarded( [ & ] { in.m->terminate_(); } );
  }
  else if ( ( pick -= wo ) < 0 )
  {
    in.budget = 2;
    rec( K_API, OP_POST );
    if ( !burst( &in.m->poster(), in ) ) postSomething( &in.m->poster(), in );
    rec( K_END, 0 );
    rec( K_APIEND, 0 );
  }
  else if ( ( pick -= wc ) < 0 )
  {
    rec( K_API, OP_CLEARH );
    int k = r.below( in.ce->d->nHist );
    rec( K_CLEARH, k );
    { Scope l( true ); in.m->poster().clearHist( k ); }
    rec( K_END, 0 );
    rec( K_APIEND, 0 );
  }
  else
  {
    destroy( in );
    create( in );
  }
  if ( r.permille( pf.opquery ) ) { in.m->query(); rec( K_QTRIG, 0, iidOf( in.m->poster().trig() ) ); }
  --g->depth;
  in.inCall = false;
  g->cur = save;
}

struct Violation { model::Tags tags; std::string msg; };

static std::vector< Rec > slice( Buf * b, int mid, uint64_t from = 0 )
{
  std::vector< Rec > v;
  for ( uint64_t k = from; k < b->n; ++k ) if ( b->r[ k ].mid == mid ) v.push_back( b->r[ k ] );
  return v;
}

// A weak structural oracle for allocation-failure runs, where the point of
// failure inside the library is not visible to the model: every constructed
// state is destroyed exactly once, inside its outer state's lifetime, on the
// same object; the call ends with bad_alloc or normally, and afterwards the
// machine works (checked by the caller through a fresh model run).
static std::string weakCheck( const desc::Chart & c, const std::vector< Rec > & v, bool & hadFail )
{
  std::map< int, const void * > act;
  bool open = false, failInside = false;
  for ( size_t k = 0; k < v.size(); ++k )
  {
    const Rec & r = v[ k ];
    if ( r.kind == K_ALLOCFAIL ) hadFail = true;
    if ( r.kind == K_ENTER )
    {
      int p = c.st[ r.a ].parent;
      if ( p >= 0 && !act.count( p ) ) return std::string( "state entered outside its outer state: " ) + c.st[ r.a ].name;
      if ( act.count( r.a ) ) return std::string( "state entered twice: " ) + c.st[ r.a ].name;
      // find this callback's end
      size_t j = k + 1;
      while ( j < v.size() && v[ j ].kind != K_END && ( v[ j ].kind < K_ENTER || v[ j ].kind > K_API ) && v[ j ].kind != K_APIEND ) ++j;
      if ( j < v.size() && v[ j ].kind == K_END && v[ j ].a == 0 ) act[ r.a ] = r.p;
    }
    if ( r.kind == K_DTOR )
    {
      if ( !act.count( r.a ) ) return std::string( "destructor of a state that is not alive: " ) + c.st[ r.a ].name;
      if ( act[ r.a ] != r.p ) return "destructor on wrong object";
      for ( auto & e : act ) if ( c.st[ e.first ].parent == r.a ) return std::string( "outer state destroyed before inner: " ) + c.st[ r.a ].name;
      act.erase( r.a );
    }
    if ( r.kind == K_EXIT && ( !act.count( r.a ) || act[ r.a ] != r.p ) ) return "exit() on a state that is not alive";
    if ( r.kind == K_API ) failInside = false;
    if ( r.kind == K_ENTER || r.kind == K_EXIT || r.kind == K_ACT || r.kind == K_REACT ) open = true;
    if ( r.kind == K_END || r.kind == K_APIEND || r.kind == K_UNCONS ) { if ( r.kind != K_APIEND ) open = false; }
    if ( r.kind == K_ALLOCFAIL && open ) failInside = true;
    if ( r.kind == K_APIEND ) open = false;
    if ( r.kind == K_APIEND && r.a == 3 && failInside && !act.empty() ) return "states alive after an unhandled allocation failure inside a reaction";
    if ( r.kind == K_QBEGIN )
    {
      bool t = r.a != 0;
      if ( t != act.empty() ) return "terminated() inconsistent with the states alive after allocation failure";
      // in a stable machine, every region of an active state that was never
      // terminated holds a state; leaves listed must be alive
      for ( size_t j = k; j < v.size() && v[ j ].kind != K_QEND; ++j )
        if ( v[ j ].kind == K_QLEAF && ( v[ j ].a < 0 || !act.count( v[ j ].a ) || act[ v[ j ].a ] != v[ j ].p ) ) return "iteration yields a dead state after allocation failure";
    }
    if ( r.kind == K_MDESTROYED && !act.empty() ) return "states survive the machine";
  }
  return "";
}

struct Options
{
  std::vector< std::string > chartNames;
  uint64_t seed = 1;
  int episodes = 50;
  int from = 0;
  int props = 0;
  Profile p;
  std::string out = "out";
  std::string mode = "model";
  bool verbose = false;
  int maxViolations = 6;
  int maxOther = 60;
  int want = -1;                   // property whose violations count; others are only reported
  int timeout = 30;
};

static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Episode
{
  const ChartEntry & ce; const Options & o; int idx; Buf * buf;
  Episode( const ChartEntry & ce, const Options & o, int idx, Buf * b ) : ce( ce ), o( o ), idx( idx ), buf( b ) {}

  uint64_t seedOf( int salt ) const
  {
    uint64_t h = o.seed * 1000003ull + idx * 7919ull + salt * 104729ull;
    for ( const char * p = ce.d->name; *p; ++p ) h = h * 131 + ( unsigned char )*p;
    return h;
  }

  void setup( Ctx & c, std::vector< Inst > & insts, int n )
  {
    buf->n = 0;
    c.buf = buf; c.p = &o.p; c.nestRng = Rng( seedOf( 999 ) );
    g = &c;
    insts.resize( n );
    for ( int k = 0; k < n; ++k )
    {
      insts[ k ].ce = &ce; insts[ k ].mid = k; insts[ k ].rng = Rng( seedOf( k ) );
      c.insts.push_back( &insts[ k ] );
      create( insts[ k ] );
    }
  }
  void teardown( Ctx & c, std::vector< Inst > & insts )
  {
    for ( size_t k = 0; k < insts.size(); ++k ) if ( insts[ k ].m ) destroy( insts[ k ] );
    for ( size_t k = 0; k < insts.size(); ++k ) { c.cur = &insts[ k ]; insts[ k ].pool.clear(); }
    c.cur = 0;
  }

  void run( std::vector< Violation > & vs, model::Coverage & cov )
  {
    if ( o.mode == "restart" ) { runRestart( vs, cov ); return; }
    if ( o.mode == "alloc" ) { runAlloc( vs, cov ); return; }
    if ( o.mode == "instances" ) { runInstances( vs, cov ); return; }
    Ctx c; std::vector< Inst > in;
    setup( c, in, 1 );
    for ( int k = 0; k < o.p.ops; ++k )
    {
      if ( k == 0 ) { c.cur = &in[ 0 ]; doInitiate( in[ 0 ] ); }
      else apiOp( in[ 0 ], false );
      buf->progress = buf->progress + 1;
    }
    teardown( c, in );
    judge( vs, cov, 0 );
    allocBalance( vs );
    g = 0;
  }

  void allocBalance( std::vector< Violation > & vs )
  {
    if ( concurrent ) return;
    AllocStats & a = allocStats();
    if ( nForeign )
    {
      char b[ 160 ]; snprintf( b, sizeof b, "allocator: a block of %zu bytes that holds no event was obtained by the library elsewhere than from the machine's allocator", foreign[ 0 ].n );
      vs.push_back( { model::T( 20 ), b } );
      nForeign = 0;
    }
    if ( a.errors ) { vs.push_back( { model::T( 20 ) | model::T( 15 ), std::string( "allocator: " ) + a.lastError } ); a.errors = 0; }
    if ( a.live ) { char b[ 100 ]; snprintf( b, sizeof b, "allocator: %ld blocks not returned after machine and events are gone", a.live ); vs.push_back( { model::T( 20 ) | model::T( 15 ), b } ); blocks().clear(); a.live = 0; }
  }

  void judge( std::vector< Violation > & vs, model::Coverage & cov, int mid )
  {
    std::vector< Rec > v = slice( buf, mid );
    cov.cnt[ "records" ] += v.size();
    std::vector< model::Issue > is = model::check( *ce.d, v, false, &cov );
    for ( auto & i : is ) vs.push_back( { i.tags, i.msg } );
  }

  // C19: a run on a machine with a past must equal a run on a fresh machine
  void runRestart( std::vector< Violation > & vs, model::Coverage & cov )
  {
    Ctx c; std::vector< Inst > in;
    setup( c, in, 1 );
    Inst & a = in[ 0 ];
    c.cur = &a;
    doInitiate( a );
    int n = 1 + a.rng.below( o.p.ops );
    for ( int k = 0; k < n; ++k ) apiOp( a, false );
    // end the run in one of the ways that end a run
    c.cur = &a;
    int how = a.rng.below( 3 );
    Profile calm = o.p; calm.tctor = calm.texit = calm.tact = calm.treact = calm.tunc = 0; calm.nest = 0;
    if ( how == 0 ) { c.p = &calm; a.budget = 5; rec( K_API, OP_TERMINATE ); guarded( [ & ] { a.m->terminate_(); } ); c.p = &o.p; }
    bool wasRunning = !a.m->terminated_();
    // both runs: same decisions
    a.pool.clear();
    Rng suffix( seedOf( 5000 ) );
    Inst b; b.ce = &ce; b.mid = 1;
    uint64_t from1 = buf->n;
    std::vector< Rec > t1, t2;
    // on a running machine exit callbacks precede the initiation; calm them so
    // that initiation itself starts, and cut them from the comparison
    a.rng = suffix;
    c.p = &calm;
    if ( wasRunning )
    {
      // exit phase decisions use another stream
      a.rng = Rng( seedOf( 6000 ) );
    }
    a.budget = 0;
    {
      // split: initiate = terminate + run; we need the second part only
      rec( K_API, OP_INITIATE );
      a.rng = suffix;
      Profile mute = calm; mute.post = mute.clear = mute.ctx = mute.query = mute.trigq = 0;
      c.p = &mute;
      guarded( [ & ] { a.m->initiate_(); } );
      c.p = &o.p;
    }
    uint64_t mark = buf->n;
    Rng after( seedOf( 7000 ) );
    a.rng = after;
    a.m->query();
    for ( int k = 0; k < o.p.ops / 2; ++k ) apiOp( a, false );
    c.cur = &a;
    a.m->query();
    for ( uint64_t k = from1; k < buf->n; ++k ) t1.push_back( buf->r[ k ] );
    // drop everything before the first ENTER of the initiation
    size_t cut = 0;
    while ( cut < t1.size() && t1[ cut ].kind != K_ENTER && from1 + cut < mark ) ++cut;
    t1.erase( t1.begin(), t1.begin() + cut );
    uint64_t from2 = buf->n;
    create( b );
    {
      Profile mute = calm; mute.post = mute.clear = mute.ctx = mute.query = mute.trigq = 0;
      c.p = &mute;
      b.rng = suffix;
      rec( K_API, OP_INITIATE );
      guarded( [ & ] { b.m->initiate_(); } );
      c.p = &o.p;
    }
    b.rng = after;
    b.m->query();
    for ( int k = 0; k < o.p.ops / 2; ++k ) apiOp( b, false );
    c.cur = &b;
    b.m->query();
    for ( uint64_t k = from2; k < buf->n; ++k ) t2.push_back( buf->r[ k ] );
    cut = 0;
    while ( cut < t2.size() && t2[ cut ].kind != K_ENTER ) ++cut;
    t2.erase( t2.begin(), t2.begin() + cut );
    if ( b.m ) destroy( b );
    c.cur = &b; b.pool.clear();
    teardown( c, in );
    std::vector< std::string > n1 = model::normalise( *ce.d, t1, false ), n2 = model::normalise( *ce.d, t2, false );
    cov.cnt[ "restart_comparisons" ]++;
    cov.cnt[ how == 0 ? "restart_after_terminate" : wasRunning ? "restart_while_running" : "restart_after_other_end" ]++;
    cov.cnt[ "compared_records" ] += n1.size();
    uint64_t h = 0; for ( auto & s : n1 ) for ( char ch : s ) h = h * 131 + ( unsigned char )ch;
    cov.keys[ 19 ].insert( h );
    size_t k = 0;
    while ( k < n1.size() && k < n2.size() && n1[ k ] == n2[ k ] ) ++k;
    if ( k < n1.size() || k < n2.size() )
    {
      std::string m = "restarted run differs from a fresh run at record " + std::to_string( k );
      for ( size_t j = k > 6 ? k - 6 : 0; j < k; ++j ) m += "\n      " + n1[ j ];
      m += "\n   restarted: " + ( k < n1.size() ? n1[ k ] : "<end>" ) + "\n   fresh:     " + ( k < n2.size() ? n2[ k ] : "<end>" );
      vs.push_back( { model::T( 19 ), m } );
    }
    judge( vs, cov, 0 );
    judge( vs, cov, 1 );
    allocBalance( vs );
    g = 0;
  }

  // C26: an instance interleaved with others (also from within their
  // callbacks) behaves exactly as alone
  void runInstances( std::vector< Violation > & vs, model::Coverage & cov )
  {
    int n = o.p.instances > 1 ? o.p.instances : 3;
    std::vector< std::vector< std::string > > together( n );
    std::vector< int > opsDone( n, 0 );
    {
      Ctx c; std::vector< Inst > in;
      setup( c, in, n );
      Rng sched( seedOf( 4242 ) );
      for ( int k = 0; k < n; ++k ) { c.cur = &in[ k ]; in[ k ].inCall = true; doInitiate( in[ k ] ); in[ k ].inCall = false; }
      for ( int k = 0; k < o.p.ops * n / 2; ++k ) { apiOp( in[ sched.below( n ) ], false ); buf->progress = buf->progress + 1; }
      teardown( c, in );
      for ( int k = 0; k < n; ++k )
      {
        judge( vs, cov, k );
        std::vector< Rec > v = slice( buf, k );
        // count API operations (each one apiOp call except the first)
        int calls = 0;
        for ( auto & r : v ) if ( r.kind == K_API || r.kind == K_MCREATE ) ++calls;
        opsDone[ k ] = calls - 2;         // create + initiate
        together[ k ] = model::normalise( *ce.d, v, false );
      }
      g = 0;
    }
    for ( int k = 0; k < n; ++k )
    {
      Ctx c; std::vector< Inst > in;
      buf->n = 0;
      c.buf = buf; c.p = &o.p; c.nestRng = Rng( 1 );
      g = &c;
      in.resize( 1 );
      in[ 0 ].ce = &ce; in[ 0 ].mid = k; in[ 0 ].rng = Rng( seedOf( k ) );
      create( in[ 0 ] );
      c.cur = &in[ 0 ];
      doInitiate( in[ 0 ] );
      for ( int j = 0; j < opsDone[ k ]; ++j ) apiOp( in[ 0 ], false );
      teardown( c, in );
      std::vector< std::string > alone = model::normalise( *ce.d, slice( buf, k ), false );
      cov.cnt[ "instances_compared" ]++;
      uint64_t h = 0; for ( auto & s : alone ) for ( char ch : s ) h = h * 131 + ( unsigned char )ch;
      cov.keys[ 26 ].insert( h );
      size_t j = 0;
      while ( j < alone.size() && j < together[ k ].size() && alone[ j ] == together[ k ][ j ] ) ++j;
      if ( j < alone.size() || j < together[ k ].size() )
      {
        std::string m = "instance behaves differently when interleaved with others, at record " + std::to_string( j );
        m += "\n   interleaved: " + ( j < together[ k ].size() ? together[ k ][ j ] : "<end>" ) + "\n   alone:       " + ( j < alone.size() ? alone[ j ] : "<end>" );
        vs.push_back( { model::T( 26 ), m } );
      }
      g = 0;
    }
  }

  // C20: replay one history, failing each allocation in turn
  void runAlloc( std::vector< Violation > & vs, model::Coverage & cov )
  {
    long total = 0;
    for ( long k = 0; ; ++k )
    {
      Ctx c; std::vector< Inst > in;
      AllocStats & a = allocStats();
      a.failAt = 0; a.failed = 0;
      long before = a.allocs;
      bool ctorFail = false;
      buf->n = 0;
      c.buf = buf; c.p = &o.p; c.nestRng = Rng( 1 ); g = &c;
      in.resize( 1 ); in[ 0 ].ce = &ce; in[ 0 ].mid = 0; in[ 0 ].rng = Rng( seedOf( 0 ) ); c.insts.push_back( &in[ 0 ] );
      create( in[ 0 ] );
      c.cur = &in[ 0 ];
      a.failAt = k;                    // k == 0: no failure
      doInitiate( in[ 0 ] );
      for ( int j = 1; j < o.p.ops; ++j )
      {
        if ( k && !a.failAt ) break;   // failure happened
        // a failure while the harness itself creates an event is not the
        // library's: such calls are retried without failure
        long pending = a.failAt;
        uint64_t mark = buf->n; (void)mark;
        try { apiOp( in[ 0 ], false ); }
        catch ( const std::bad_alloc & ) { in[ 0 ].inCall = false; c.depth = 0; if ( pending ) a.failAt = 0; }
        buf->progress = buf->progress + 1;
      }
      a.failAt = 0;
      c.cur = &in[ 0 ];
      // aftermath: the machine must still be usable
      uint64_t mark = buf->n;
      in[ 0 ].m->query();
      bool had = a.failed != 0;
      std::vector< Rec > pre = slice( buf, 0 );
      std::string w = weakCheck( *ce.d, pre, ctorFail );
      Profile calm = o.p; calm.tctor = calm.texit = calm.tact = calm.treact = calm.tunc = 0;
      c.p = &calm;
      in[ 0 ].budget = 5;
      rec( K_API, OP_TERMINATE );
      guarded( [ & ] { in[ 0 ].m->terminate_(); } );
      if ( buf->r[ buf->n - 1 ].a != 0 ) w = w.empty() ? "terminate() fails after an allocation failure" : w;
      if ( !in[ 0 ].m->terminated_() ) w = w.empty() ? "machine not terminated by terminate() after an allocation failure" : w;
      uint64_t restart = buf->n;
      in[ 0 ].pool.clear();
      rec( K_MCREATE, 0, 0, dynamic_cast< const void * >( in[ 0 ].m ) );
      uint64_t evFrom = buf->n; (void)evFrom;
      doInitiate( in[ 0 ] );
      for ( int j = 0; j < 6; ++j ) apiOp( in[ 0 ], false );
      teardown( c, in );
      // whole-run structural check, then a full model check of the aftermath
      if ( w.empty() ) w = weakCheck( *ce.d, slice( buf, 0 ), ctorFail );
      if ( !w.empty() ) vs.push_back( { model::T( 20 ) | model::T( 15 ), "allocation failure " + std::to_string( k ) + ": " + w } );
      std::vector< Rec > post = slice( buf, 0, restart );
      // events that existed before the restart are destroyed by then; drop their records
      std::set< int > known; std::vector< Rec > post2;
      for ( auto & r : post )
      {
        if ( r.kind == K_EVNEW || r.kind == K_EVCOPY ) known.insert( ( int )r.q );
        if ( r.kind == K_EVDTOR && !known.count( ( int )r.q ) ) continue;
        post2.push_back( r );
      }
      std::vector< model::Issue > is = model::check( *ce.d, post2, false, k == 0 ? &cov : 0 );
      for ( auto & i : is ) vs.push_back( { i.tags | model::T( 20 ), "after allocation failure " + std::to_string( k ) + ": " + i.msg } );
      // every event destroyed
      long live = 0;
      for ( uint64_t j = 0; j < buf->n; ++j ) { int kd = buf->r[ j ].kind; if ( kd == K_EVNEW || kd == K_EVCOPY ) ++live; if ( kd == K_EVDTOR ) --live; }
      if ( live ) vs.push_back( { model::T( 20 ) | model::T( 14 ), "allocation failure " + std::to_string( k ) + ": " + std::to_string( live ) + " event objects not destroyed" } );
      size_t nv = vs.size();
      allocBalance( vs );
      for ( size_t j = nv; j < vs.size(); ++j ) vs[ j ].msg = "allocation failure " + std::to_string( k ) + ": " + vs[ j ].msg;
      (void)mark;
      g = 0;
      if ( k == 0 ) { total = allocStats().allocs - before; cov.cnt[ "alloc_histories" ]++; }
      else { if ( !had ) break; cov.cnt[ "allocation_failures_injected" ]++; cov.keys[ 20 ].insert( seedOf( ( int )k ) ); }
      if ( vs.size() > 3 ) break;
      if ( k >= total + 2 ) break;
    }
  }
};

// --------------------------------------------------------- process structure
static Buf * mapBuf( uint64_t cap )
{
  size_t sz = sizeof( Buf ) + cap * sizeof( Rec );
  void * p = mmap( 0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
  if ( p == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
  Buf * b = ( Buf * )p;
  b->n = 0; b->cap = cap; b->episode = 0; b->progress = 0;
  return b;
}


// file formats: line based
static void emitViolation( FILE * f, const ChartEntry & ce, const Options & o, int ep, const Violation & v )
{
  std::string m = v.msg;
  std::string esc;
  for ( char ch : m ) { if ( ch == '\n' ) esc += "\\n"; else if ( ch == '\t' ) esc += ' '; else esc += ch; }
  fprintf( f, "V\t%s\t%s\t%d\t%s\n", model::tagNames( v.tags ).c_str(), ce.d->name, ep, esc.c_str() );
  fflush( f );
}

static bool wanted( const Options & o, model::Tags t ) { return o.want < 0 || ( t & model::T( o.want ) ); }

// C26: instances running concurrently, each trace judged on its own
static void runThreads( const ChartEntry & ce, const Options & o, int idx, Buf * main, std::vector< Violation > & vs, model::Coverage & cov )
{
  const int T = 4, R = 3;
  static std::vector< Buf * > bufs;
  while ( ( int )bufs.size() < T ) bufs.push_back( mapBuf( 300000 ) );
  concurrent = true;
  std::vector< std::vector< Violation > > v( T ); std::vector< model::Coverage > cv( T );
  std::atomic< int > ready( 0 );
  std::vector< std::thread > th;
  for ( int t = 0; t < T; ++t )
    th.emplace_back( [ &, t ]
    {
      ready.fetch_add( 1, std::memory_order_relaxed );
      while ( ready.load( std::memory_order_relaxed ) < T ) std::this_thread::yield();
      // the first two threads run the same history
      for ( int r = 0; r < R; ++r )
      {
        Options oo = o; oo.mode = "model";
        Episode E( ce, oo, ( idx * T + ( t == 1 ? 0 : t ) ) * R + r, bufs[ t ] );
        E.run( v[ t ], cv[ t ] );
      }
    } );
  for ( auto & x : th ) x.join();
  concurrent = false;
  for ( int t = 0; t < T; ++t )
  {
    for ( auto & x : v[ t ] ) vs.push_back( { x.tags == model::T( 29 ) ? x.tags : x.tags | model::T( 26 ), "running concurrently: " + x.msg } );
    for ( auto & e : cv[ t ].cnt ) cov.cnt[ e.first ] += e.second;
    for ( int p = 0; p < 32; ++p ) cov.keys[ p ].insert( cv[ t ].keys[ p ].begin(), cv[ t ].keys[ p ].end() );
    uint64_t h = 0;
    for ( uint64_t k = 0; k < bufs[ t ]->n; ++k ) h = h * 1099511628211ull + bufs[ t ]->r[ k ].kind * 64 + bufs[ t ]->r[ k ].a;
    cov.keys[ 26 ].insert( h );
  }
  cov.cnt[ "concurrent_instances" ] += T * R;
  if ( concurrentLive.load() ) { vs.push_back( { model::T( 26 ) | model::T( 20 ), "running concurrently: blocks not returned to the allocator" } ); concurrentLive = 0; }
  main->progress = main->progress + 1;
}

static int runChart( const ChartEntry & ce, const Options & o, Buf * buf, FILE * out, model::Coverage & total )
{
  int ep = o.from, end = o.from + o.episodes, nv = 0, nOther = 0;
  bool retriedHang = false;
  // violations of other properties must not keep this one from being observed
  while ( ep < end && nv < o.maxViolations && nOther < o.maxOther )
  {
    std::string covFile = o.out + ".cov", errFile = o.out + ".err", vFile = o.out + ".v";
    unlink( covFile.c_str() ); unlink( vFile.c_str() );
    buf->episode = ep; buf->n = 0; buf->progress = 0;
    fflush( 0 );
    pid_t pid = fork();
    if ( pid < 0 ) { perror( "fork" ); exit( 3 ); }
    if ( pid == 0 )
    {
      int e = open( errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
      if ( e >= 0 ) { dup2( e, 2 ); }
#ifdef HAS_ASAN
      if ( o.mode != "threads" ) __sanitizer_install_malloc_and_free_hooks( mallocHook, freeHook );
#endif
      FILE * vf = fopen( vFile.c_str(), "w" );
      model::Coverage cov;
      int bad = 0, badOther = 0, known = 0;
      for ( int k = ep; k < end; ++k )
      {
        buf->episode = k;
        buf->progress = buf->progress + 1;
        std::vector< Violation > vs;
        Episode E( ce, o, k, buf );
        if ( o.mode == "threads" ) runThreads( ce, o, k, buf, vs, cov );
        else E.run( vs, cov );
        cov.cnt[ "episodes" ]++;
        if ( k == ep )
        {
          std::string s = std::string( ce.d->name ) + " episode " + std::to_string( k ) + ":";
          uint64_t lim = buf->n < 60 ? ( uint64_t )buf->n : 60;
          for ( uint64_t j = 0; j < lim; ++j ) { int kd = buf->r[ j ].kind; if ( kd >= K_QBEGIN && kd <= K_QEND ) continue; if ( kd == K_END && buf->r[ j ].a == 0 ) continue; s += " " + model::render( *ce.d, buf->r[ j ] ) + ";"; }
          cov.samples.push_back( s );
        }
        int e1 = 0, e2 = 0;
        for ( size_t j = 0; j < vs.size(); ++j )
          if ( vs[ j ].tags == model::T( 29 ) ) { if ( !known++ ) emitViolation( vf, ce, o, k, vs[ j ] ); }
          else if ( wanted( o, vs[ j ].tags ) ) { if ( ++e1 <= 3 ) { emitViolation( vf, ce, o, k, vs[ j ] ); ++bad; } }
          else if ( ++e2 <= 1 ) { emitViolation( vf, ce, o, k, vs[ j ] ); ++badOther; }
        if ( o.verbose ) for ( uint64_t j = 0; j < buf->n; ++j ) printf( "%s\n", model::render( *ce.d, buf->r[ j ] ).c_str() );
        if ( bad >= o.maxViolations || badOther >= o.maxOther ) break;
      }
#ifdef HAS_ASAN
      if ( !bad && !badOther )
      {
        buf->episode = end - 1; buf->n = 0;
        g = 0;
        if ( __lsan_do_recoverable_leak_check() )
        {
          Violation v = { model::T( 15 ), "LeakSanitizer: memory leaked by the episodes of this batch, see " + errFile };
          emitViolation( vf, ce, o, -1, v );
        }
      }
#endif
      fclose( vf );
      FILE * cf = fopen( covFile.c_str(), "w" );
      for ( auto & e2 : cov.cnt ) fprintf( cf, "N\t%s\t%llu\n", e2.first.c_str(), ( unsigned long long )e2.second );
      for ( int p = 0; p < 32; ++p ) for ( uint64_t h : cov.keys[ p ] ) fprintf( cf, "K\t%d\t%llx\n", p, ( unsigned long long )h );
      for ( auto & s : cov.samples ) fprintf( cf, "S\t%s\n", s.c_str() );
      fclose( cf );
      fflush( stdout );
      _exit( 0 );
    }
    // parent: wait with a progress watchdog
    int st = 0; bool killed = false;
    uint64_t last = ~0ull; double since = now();
    for ( ;; )
    {
      pid_t w = waitpid( pid, &st, WNOHANG );
      if ( w == pid ) break;
      uint64_t pr = buf->progress * 1000003ull + buf->n + buf->episode * 17;
      if ( pr != last ) { last = pr; since = now(); }
      if ( now() - since > o.timeout ) { kill( pid, SIGKILL ); waitpid( pid, &st, 0 ); killed = true; break; }
      usleep( 2000 );
    }
    // collect
    if ( FILE * f = fopen( vFile.c_str(), "r" ) )
    {
      std::string line; int ch;
      while ( ( ch = fgetc( f ) ) != EOF ) { if ( ch == '\n' ) { fprintf( out, "%s\n", line.c_str() ); model::Tags lt = model::parseTags( line ); if ( lt == model::T( 29 ) ) ; else if ( wanted( o, lt ) ) ++nv; else ++nOther; line.clear(); } else line += ( char )ch; }
      fclose( f );
    }
    if ( FILE * f = fopen( covFile.c_str(), "r" ) )
    {
      std::string line; int ch;
      while ( ( ch = fgetc( f ) ) != EOF )
      {
        if ( ch != '\n' ) { line += ( char )ch; continue; }
        size_t a = line.find( '\t' ), b = line.find( '\t', a + 1 );
        if ( line[ 0 ] == 'N' ) total.cnt[ line.substr( a + 1, b - a - 1 ) ] += strtoull( line.c_str() + b + 1, 0, 10 );
        else if ( line[ 0 ] == 'K' ) total.keys[ atoi( line.c_str() + a + 1 ) ].insert( strtoull( line.c_str() + b + 1, 0, 16 ) );
        else if ( line[ 0 ] == 'S' ) total.samples.push_back( line.substr( a + 1 ) );
        line.clear();
      }
      fclose( f );
    }
    if ( !killed && WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) break;
    // died inside episode buf->episode
    int dead = ( int )buf->episode;
    if ( killed && !retriedHang ) { retriedHang = true; ep = dead; continue; }   // once more, from there
    std::string err;
    if ( FILE * f = fopen( errFile.c_str(), "r" ) ) { char b[ 3000 ]; size_t k = fread( b, 1, sizeof b - 1, f ); b[ k ] = 0; err = b; fclose( f ); }
    std::set< int > mids;
    for ( uint64_t k = 0; k < buf->n; ++k ) mids.insert( buf->r[ k ].mid );
    model::Tags tags = model::T( 15 );
    std::string msg = killed ? "no progress (hang)" : WIFEXITED( st ) && WEXITSTATUS( st ) == 78 ? "runaway: trace limit exceeded" :
      WIFSIGNALED( st ) ? "process killed by signal " + std::to_string( WTERMSIG( st ) ) : "process died, exit code " + std::to_string( WEXITSTATUS( st ) );
    int lastMid = buf->n ? buf->r[ buf->n - 1 ].mid : 0;
    if ( o.mode == "alloc" ) tags |= model::T( 20 );
    else if ( !mids.empty() )
    {
      std::vector< model::Issue > is = model::check( *ce.d, slice( buf, lastMid ), true, 0 );
      for ( auto & i : is ) { tags |= i.tags; msg += "\n" + i.msg; }
    }
    if ( err.find( "Assertion" ) != std::string::npos ) tags |= model::T( 28 );
    if ( o.mode == "restart" ) tags |= model::T( 19 );
    if ( o.mode == "instances" || o.mode == "threads" ) tags |= model::T( 26 );
    if ( o.want > 0 ) tags |= model::T( o.want );    // no guarantee survives a crash or a hang on correct use
    msg += "\nstderr: " + err.substr( 0, 1800 );
    Violation v = { tags, msg };
    emitViolation( out, ce, o, dead, v );
    if ( wanted( o, tags ) ) ++nv; else ++nOther;
    total.cnt[ "deaths" ]++;
    if ( killed ) break;         // more of this would only take time
    ep = dead + 1;
    retriedHang = false;
  }
  return nv;
}

} // namespace rt

// ------------------------------------------------ dump mode for differential
static void dumpChart( const rt::ChartEntry & ce, const rt::Options & o, trace::Buf * buf )
{
  for ( int k = o.from; k < o.from + o.episodes; ++k )
  {
    rt::Ctx c; std::vector< rt::Inst > in;
    rt::Episode E( ce, o, k, buf );
    E.setup( c, in, 1 );
    for ( int j = 0; j < o.p.ops; ++j )
      if ( j == 0 ) { c.cur = &in[ 0 ]; rt::doInitiate( in[ 0 ] ); } else rt::apiOp( in[ 0 ], false );
    E.teardown( c, in );
    std::vector< std::string > n = model::normalise( *ce.d, rt::slice( buf, 0 ), false );
    printf( "EPISODE %d %zu\n", k, n.size() );
    for ( auto & s : n ) printf( "%s\n", s.c_str() );
    rt::g = 0;
  }
}

int rt_main( int argc, char ** argv )
{
  rt::Options o;
  bool dump = false, list = false;
  for ( int k = 1; k < argc; ++k )
  {
    std::string a = argv[ k ];
    auto val = [ & ]() -> std::string { return k + 1 < argc ? argv[ ++k ] : ""; };
    if ( a == "--chart" ) { std::stringstream ss( val() ); std::string t; while ( std::getline( ss, t, ',' ) ) o.chartNames.push_back( t ); }
    else if ( a == "--seed" ) o.seed = strtoull( val().c_str(), 0, 10 );
    else if ( a == "--episodes" ) o.episodes = atoi( val().c_str() );
    else if ( a == "--from" ) o.from = atoi( val().c_str() );
    else if ( a == "--profile" )
    {
      std::stringstream ss( val() ); std::string t;
      while ( std::getline( ss, t, ',' ) ) { size_t e = t.find( '=' ); if ( e != std::string::npos ) o.p.set( t.substr( 0, e ), atoi( t.c_str() + e + 1 ) ); }
    }
    else if ( a == "--out" ) o.out = val();
    else if ( a == "--mode" ) o.mode = val();
    else if ( a == "--verbose" ) o.verbose = true;
    else if ( a == "--timeout" ) o.timeout = atoi( val().c_str() );
    else if ( a == "--max-violations" ) o.maxViolations = atoi( val().c_str() );
    else if ( a == "--want" ) { o.want = atoi( val().c_str() ); model::coverOnly = o.want; }
    else if ( a == "--dump" ) dump = true;
    else if ( a == "--list" ) list = true;
    else { fprintf( stderr, "unknown option %s\n", a.c_str() ); return 3; }
  }
  if ( list ) { for ( auto & c : rt::charts() ) printf( "%s\n", c.d->name ); return 0; }
  trace::Buf * buf = rt::mapBuf( 300000 );
  FILE * out = dump ? 0 : fopen( o.out.c_str(), "w" );
  model::Coverage total;
  int nv = 0;
  for ( auto & ce : rt::charts() )
  {
    if ( !o.chartNames.empty() && std::find( o.chartNames.begin(), o.chartNames.end(), ce.d->name ) == o.chartNames.end() ) continue;
    if ( dump ) { dumpChart( ce, o, buf ); continue; }
    nv += rt::runChart( ce, o, buf, out, total );
  }
  if ( dump ) return 0;
  for ( auto & e : total.cnt ) fprintf( out, "N\t%s\t%llu\n", e.first.c_str(), ( unsigned long long )e.second );
  for ( int p = 0; p < 32; ++p ) for ( uint64_t h : total.keys[ p ] ) fprintf( out, "K\t%d\t%llx\n", p, ( unsigned long long )h );
  for ( size_t k = 0; k < total.samples.size() && k < 2; ++k ) fprintf( out, "S\t%s\n", total.samples[ k ].substr( 0, 3000 ).c_str() );
  fprintf( out, "DONE\t%d\n", nv );
  fclose( out );
  std::string b = o.out;
  unlink( ( b + ".cov" ).c_str() ); unlink( ( b + ".v" ).c_str() );
  return nv ? 1 : 0;
}
#ifndef RT_NO_MAIN
int main( int argc, char ** argv ) { return rt_main( argc, argv ); }
#endif
