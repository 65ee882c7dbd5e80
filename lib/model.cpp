#include "model.hpp"
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>

using namespace trace;
using namespace desc;

const char * trace::kindName( int k )
{
  static const char * n[] = { "NONE", "ENTER", "EXIT", "DTOR", "ACT", "REACT", "UNCONS", "END", "API", "APIEND",
    "POST", "CLEARH", "CTX", "MDESTROY", "MDESTROYED", "MCREATE", "QBEGIN", "QLEAF", "QDOWN", "QCAST", "QIFC",
    "QTRIG", "QEND", "EVNEW", "EVCOPY", "EVDTOR", "ALLOCFAIL", "NOTE" };
  return k >= 0 && k < int( sizeof n / sizeof *n ) ? n[ k ] : "?";
}

namespace model {

int coverOnly = -1;


std::string tagNames( Tags t )
{
  std::string s;
  for ( int i = 1; i < 32; ++i ) if ( t & T( i ) ) { char b[ 8 ]; snprintf( b, sizeof b, "C%02d", i ); if ( !s.empty() ) s += ","; s += b; }
  return s;
}

Tags parseTags( const std::string & line )
{
  Tags t = 0;
  size_t a = line.find( '\t' ), e = line.find( '\t', a + 1 );
  for ( size_t k = a + 1; k + 2 < e; k += 4 ) t |= T( atoi( line.c_str() + k + 1 ) );
  return t;
}

static std::string stName( const Chart & c, int s )
{
  return s == -1 ? "machine" : s >= 0 && s < c.nStates ? c.st[ s ].name : "?";
}

std::string render( const Chart & c, const Rec & r )
{
  char b[ 200 ];
  static const char * ops[] = { "initiate", "terminate", "process_event", "post", "query", "clear_history" };
  switch ( r.kind )
  {
  case K_API: snprintf( b, sizeof b, "API %s uid=%d iid=%ld", r.a >= 0 && r.a < 6 ? ops[ r.a ] : "?", r.b, ( long )r.q ); break;
  case K_ENTER: case K_EXIT: case K_DTOR:
    snprintf( b, sizeof b, "%s %s trig=%d @%p", kindName( r.kind ), stName( c, r.a ).c_str(), r.b, r.p ); break;
  case K_ACT: case K_REACT: case K_UNCONS:
    snprintf( b, sizeof b, "%s %s trig=%d ev=%ld @%p", kindName( r.kind ), stName( c, r.a ).c_str(), r.b, ( long )r.q, r.p ); break;
  default: snprintf( b, sizeof b, "%s a=%d b=%d q=%ld p=%p", kindName( r.kind ), r.a, r.b, ( long )r.q, r.p );
  }
  return b;
}

namespace {

struct Mismatch { Issue is; };
struct Trunc { Tags tags; std::string what; size_t pos; };
// what one attempt at a trace covered; merged only when it explains the trace
struct TmpCov
{
  std::unordered_map< const char *, uint64_t > cnt;
  std::vector< std::pair< int, uint64_t > > keys;
};

struct UserThrow { int type, id; };

struct Ev { int cls, uid, iid; bool released; };   // iid -1: unknown

enum Res { FORWARD, DISCARD, DEFER };

// The abstract state of one machine
struct St
{
  std::vector< char > active, deferring, unstable;
  std::vector< const void * > addr;
  int relaxedHold = -1;
  std::vector< int > leafOrder;           // a heuristic only: search order is free
  std::map< int, int > sh, dp;            // (state*8+region) -> state
  std::deque< Ev > posted, deferred;
  std::vector< int > alive;               // event objects alive (iids)
  bool full;
  int trig;                               // iid of the triggering event, 0 none
  int lastEx[ 8 ];                        // newest event object created, per class
  int lastCopySrc, lastCopyIid;
  int nCopies;
  std::vector< std::pair< int, int > > copies;   // (source, copy) since the API call began
  std::vector< int > dead;                       // destroyed since the last main record
  size_t i;                               // trace position
};

struct Checker
{
  const Chart & c;
  const std::vector< Rec > & r;
  bool truncated;
  TmpCov * cov;
  St s;
  Tags ctx;                               // tags of the surrounding phase
  Tags sticky;
  std::vector< Issue > soft;
  bool reversed = false;                  // which leaf is supposed to be searched first
  bool orderMatters = false;
  bool wide = false;                      // consider every order of the regions
  int mute = 0;                           // choices that do not count
  bool strict = false;                    // a soft issue refutes the choices made so far
  const void * machine;
  bool exists;
  int runs;                               // number of initiations so far
  Ev cur;                                 // event being dispatched
  const char * phase;
  // choice points resolved by restart
  std::vector< int > prefix, taken, width;
  long budget;
  std::map< int, int > evCls, evUid;      // iid -> class/uid (immutable facts)
  int lastProvenance;                     // 0 api event 1 posted 2 released
  size_t dispatchStart;

  Checker( const Chart & c, const std::vector< Rec > & r, bool tr, TmpCov * cov ) :
    c( c ), r( r ), truncated( tr ), cov( cov ), ctx( 0 ), sticky( 0 ), machine( 0 ), exists( false ), runs( 0 ),
    phase( "" ), budget( 200000 ), lastProvenance( 0 ), dispatchStart( 0 )
  {
    memset( &cur, 0, sizeof cur );
  }

  void reset()
  {
    s = St();
    s.active.assign( c.nStates, 0 ); s.deferring = s.active; s.unstable = s.active;
    s.addr.assign( c.nStates, ( const void * )0 );
    s.full = true; s.trig = 0; s.i = 0; s.lastCopySrc = s.lastCopyIid = -1; s.nCopies = 0;
    for ( int k = 0; k < 8; ++k ) s.lastEx[ k ] = -1;
    ctx = 0; sticky = 0; soft.clear(); machine = 0; exists = false; runs = 0; taken.clear(); width.clear();
    budget = 200000; lastProvenance = 0;
  }

  // ------------------------------------------------------------- reporting
  void count( const char * k, uint64_t n = 1 ) { if ( cov ) cov->cnt[ k ] += n; }
  uint64_t cfg() const
  {
    uint64_t h = 1469598103934665603ull;
    for ( int k = 0; k < c.nStates; ++k ) h = ( h ^ ( s.active[ k ] ? k + 1 : 0 ) ) * 1099511628211ull;
    for ( const char * p = c.name; *p; ++p ) h = ( h ^ ( unsigned char )*p ) * 1099511628211ull;
    return h;
  }
  void cover( int prop, uint64_t a, uint64_t b = 0, uint64_t d = 0 )
  {
    if ( !cov || ( coverOnly >= 0 && prop != coverOnly ) ) return;
    uint64_t h = cfg();
    h = ( h ^ a ) * 1099511628211ull; h = ( h ^ b ) * 1099511628211ull; h = ( h ^ d ) * 1099511628211ull;
    cov->keys.push_back( std::make_pair( prop, h ) );
  }

  static Tags natural( int kind )
  {
    switch ( kind )
    {
    case K_ENTER: return T( 3 );
    case K_EXIT: return T( 2 ) | T( 13 );
    case K_DTOR: return T( 2 );
    case K_ACT: return T( 4 );
    case K_REACT: return T( 1 );
    case K_UNCONS: return T( 1 );
    default: return 0;
    }
  }

  std::string where( size_t pos )
  {
    std::string o;
    size_t b = pos > 12 ? pos - 12 : 0;
    for ( size_t k = b; k <= pos && k < r.size(); ++k )
    { o += k == pos ? "\n   >> " : "\n      "; o += render( c, r[ k ] ); }
    return o;
  }

  [[noreturn]] void fail( const std::string & msg, Tags t )
  {
    Issue is;
    is.pos = s.i;
    is.tags = t | ctx | sticky;
    if ( s.i < r.size() )
    {
      is.tags |= natural( r[ s.i ].kind );
      // wrong event?
      const Rec & o = r[ s.i ];
      if ( ( o.kind == K_REACT || o.kind == K_ACT || o.kind == K_UNCONS ) )
      {
        int uid = evUid.count( ( int )o.q ) ? evUid[ ( int )o.q ] : -1;
        for ( const Ev & e : s.posted ) if ( e.uid == uid ) is.tags |= e.released ? T( 6 ) : T( 5 );
        for ( const Ev & e : s.deferred ) if ( e.uid == uid ) is.tags |= T( 6 );
      }
    }
    if ( s.i <= dispatchStart + 1 && lastProvenance ) is.tags |= lastProvenance == 2 ? T( 6 ) | T( 5 ) : T( 5 );
    is.msg = std::string( phase ) + ": " + msg;
    throw Mismatch{ is };
  }
  void softIssue( const std::string & msg, Tags t, size_t pos )
  {
    Issue is; is.pos = pos; is.tags = t | sticky; is.msg = std::string( phase ) + ": " + msg;
    if ( strict ) throw Mismatch{ is };
    if ( soft.size() < 20 ) soft.push_back( is );
  }

  struct Scope
  {
    Checker & k; Tags old; const char * ph;
    Scope( Checker & k, Tags t, const char * p = 0 ) : k( k ), old( k.ctx ), ph( k.phase ) { k.ctx |= t; if ( p ) k.phase = p; }
    ~Scope() { k.ctx = old; k.phase = ph; }
  };

  // ---------------------------------------------------------- side records
  bool isSide( int k ) { return k == K_EVNEW || k == K_EVCOPY || k == K_EVDTOR || k == K_NOTE || k == K_ALLOCFAIL; }

  void side( const Rec & x, size_t pos )
  {
    if ( x.kind == K_EVNEW || x.kind == K_EVCOPY )
    {
      int iid = ( int )x.q;
      evCls[ iid ] = x.a;
      if ( x.kind == K_EVNEW ) evUid[ iid ] = x.b;
      else evUid[ iid ] = evUid.count( x.b ) ? evUid[ x.b ] : -1;
      s.alive.push_back( iid );
      if ( x.kind == K_EVNEW ) { if ( x.a >= 0 && x.a < 8 ) s.lastEx[ x.a ] = iid; }
      else { s.lastCopySrc = x.b; s.lastCopyIid = iid; ++s.nCopies; s.copies.push_back( std::make_pair( x.b, iid ) ); count( "event_copies" ); }
    }
    else if ( x.kind == K_EVDTOR )
    {
      int iid = ( int )x.q;
      std::vector< int >::iterator f = std::find( s.alive.begin(), s.alive.end(), iid );
      if ( f == s.alive.end() ) softIssue( "event object destroyed twice or unknown", T( 14 ) | T( 15 ), pos );
      else s.alive.erase( f );
      if ( !x.a ) softIssue( "event object corrupted at destruction", T( 14 ) | T( 15 ), pos );
      s.dead.push_back( iid );
    }
  }

  // called when the model has caught up with the record about to be consumed
  void checkDead()
  {
    for ( int iid : s.dead )
    {
      for ( const Ev & e : s.posted ) if ( e.iid == iid ) softIssue( "posted event object destroyed while queued", T( 14 ) | T( 5 ), s.i );
      for ( const Ev & e : s.deferred ) if ( e.iid == iid ) softIssue( "deferred event object destroyed while deferred", T( 14 ) | T( 6 ), s.i );
    }
    s.dead.clear();
  }
  const Rec * peek()
  {
    while ( s.i < r.size() && isSide( r[ s.i ].kind ) ) { side( r[ s.i ], s.i ); ++s.i; }
    return s.i < r.size() ? &r[ s.i ] : 0;
  }
  const Rec & need( Tags t, const std::string & what )
  {
    const Rec * x = peek();
    if ( !x )
    {
      if ( truncated ) throw Trunc{ t | ctx | sticky, std::string( phase ) + ": expected " + what, s.i };
      fail( "trace ends, expected " + what, t );
    }
    return *x;
  }

  // -------------------------------------------------------- model helpers
  const State & d( int x ) const { return c.st[ x ]; }
  bool leaf( int x ) const { return d( x ).nInner == 0; }
  bool hasActiveChild( int x ) const
  {
    for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && d( k ).parent == x ) return true;
    return false;
  }
  int activeChild( int x, int region ) const
  {
    for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && d( k ).parent == x && d( k ).region == region ) return k;
    return -1;
  }
  int depth( int x ) const { int n = 0; while ( x >= 0 ) { ++n; x = d( x ).parent; } return n; }
  int outermostUnstable() const
  {
    int best = -1;
    for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && s.unstable[ k ] && ( best < 0 || depth( k ) < depth( best ) ) ) best = k;
    return best;
  }
  bool anyActive() const { for ( char a : s.active ) if ( a ) return true; return false; }
  void clearFlags() { std::fill( s.unstable.begin(), s.unstable.end(), 0 ); }

  // ------------------------------------------------- records inside callbacks
  struct Cb { int outcome, id; long opt; };

  void query( Tags t, bool stable );

  Cb userActions( const char * what, int self )
  {
    for ( ;; )
    {
      const Rec * x = peek();
      if ( !x )
      {
        Tags t = T( 18 ) | T( 8 );
        if ( s.i > 0 ) { int k = r[ s.i - 1 ].kind; if ( k == K_POST || k == K_EVCOPY ) t = T( 5 ) | T( 14 ); else if ( k >= K_QBEGIN && k <= K_QEND ) t = T( 8 ); }
        if ( truncated ) throw Trunc{ t | ctx | sticky, std::string( "inside user callback " ) + what, s.i };
        fail( "trace ends inside a callback", 0 );
      }
      switch ( x->kind )
      {
      case K_POST: { Rec y = *x; ++s.i; post( y ); break; }
      case K_CLEARH: { int k = x->a; ++s.i; clearHist( k ); break; }
      case K_CTX: { Rec y = *x; size_t pos = s.i; ++s.i; ctxCheck( y, self, pos ); break; }
      case K_QBEGIN: query( T( 8 ), true ); break;
      case K_QTRIG:
        if ( x->b != s.trig ) softIssue( "triggering_event() differs between machine and state or is wrong", T( 16 ), s.i );
        ++s.i; break;
      case K_END: { Cb cb; cb.outcome = x->a; cb.id = x->b; cb.opt = ( long )x->q; ++s.i; return cb; }
      default: fail( std::string( "library called back into user code while a callback (" ) + what + ") is running", 0 );
      }
    }
  }

  void ctxCheck( const Rec & y, int self, size_t pos )
  {
    // y.a: ancestor number counted from the state itself; -1 the machine
    count( "context_accesses" );
    const void * want;
    if ( y.a == -1 ) want = machine;
    else
    {
      int x = self;
      if ( y.a >= 100 ) while ( x >= 0 && !( d( x ).ifcMask >> ( y.a - 100 ) & 1 ) ) x = d( x ).parent;
      else
      {
        for ( int k = 0; k < y.a && x >= 0; ++k ) x = d( x ).parent;
        if ( x < 0 ) return;
      }
      if ( x < 0 ) want = machine;
      else if ( !s.active[ x ] ) { softIssue( "outer state " + stName( c, x ) + " of " + stName( c, self ) + " is not alive", T( 18 ), pos ); return; }
      else want = s.addr[ x ];
    }
    cover( 18, self, y.a + 2, y.b );
    if ( want != y.p ) softIssue( "context<>() of " + stName( c, self ) + " yields the wrong object", T( 18 ), pos );
  }

  void post( const Rec & y )
  {
    Ev e; e.uid = y.b; e.cls = evCls.count( ( int )y.q ) ? evCls[ ( int )y.q ] : -1; e.released = false;
    count( "posts" );
    if ( y.a == 0 )   // by reference, not reference counted: exactly one copy
    {
      int before = s.nCopies; s.lastCopyIid = -1; s.lastCopySrc = -1;
      peek();
      if ( s.nCopies != before + 1 || s.lastCopySrc != ( int )y.q )
      {
        softIssue( "posting a not reference-counted event must store exactly one copy", T( 14 ), s.i );
        e.iid = -1;
      }
      else e.iid = s.lastCopyIid;
    }
    else
    {
      int before = s.nCopies;
      peek();
      if ( s.nCopies != before ) softIssue( "posting a reference-counted event must not copy it", T( 14 ), s.i );
      e.iid = ( int )y.q;
    }
    s.posted.push_back( e );
  }

  void clearHist( int k )
  {
    const HistSlot & h = c.hist[ k ];
    ( h.kind == D_SHALLOW ? s.sh : s.dp ).erase( h.st * 8 + h.region );
    cover( h.kind == D_SHALLOW ? 9 : 10, 77, k );
    count( "history_clears" );
  }

  // Expects a library-initiated callback
  Cb expectCb( int kind, int state, Tags t, const void * addr, bool checkTrig )
  {
    std::string what = std::string( kindName( kind ) ) + " " + stName( c, state );
    const Rec & x = need( t | natural( kind ), what );
    if ( x.kind != kind || x.a != state )
      fail( "expected " + what + ", observed " + render( c, x ), t | natural( kind ) );
    size_t pos = s.i;
    checkDead();
    if ( kind == K_ENTER )
    {
      s.addr[ state ] = x.p;
    }
    else if ( addr && x.p != addr )
      softIssue( what + " invoked on the wrong object", t | natural( kind ) | T( 18 ), pos );
    if ( checkTrig && x.b != -1 && x.b != s.trig )
    {
      char b[ 100 ]; snprintf( b, sizeof b, " in %s is %d, expected %d", what.c_str(), x.b, s.trig );
      softIssue( std::string( "triggering_event()" ) + b, T( 16 ), pos );
    }
    if ( checkTrig && x.b != -1 ) cover( 16, kind, state, s.trig != 0 );
    ++s.i;
    count( kindName( kind ) );
    return userActions( what.c_str(), state );
  }

  // --------------------------------------------------------------- destroy
  void releaseDeferred()
  {
    if ( !s.deferred.empty() )
    {
      cover( 6, s.deferred.size(), s.posted.size(), 5 );
      count( "deferral_releases" ); count( "events_released", s.deferred.size() );
    }
    for ( Ev & e : s.deferred ) e.released = true;
    s.posted.insert( s.posted.begin(), s.deferred.begin(), s.deferred.end() );
    s.deferred.clear();
  }

  void destroyState( int x, Tags t )
  {
    const void * a = s.addr[ x ];
    // the destructor runs while the state still counts as active
    Cb cb = expectCb( K_DTOR, x, t, a, false );
    ( void )cb;
    s.active[ x ] = 0; s.unstable[ x ] = 0;
    std::vector< int >::iterator f = std::find( s.leafOrder.begin(), s.leafOrder.end(), x );
    if ( f != s.leafOrder.end() ) { *f = s.leafOrder.back(); s.leafOrder.pop_back(); }
    if ( s.deferring[ x ] ) { s.deferring[ x ] = 0; releaseDeferred(); }
  }

  // unwinding: states that lost their last inner state while an exception
  // passes through are destroyed unless they are the outermost unstable one
  void unwind( int x, Tags t )
  {
    while ( x >= 0 && s.active[ x ] && !hasActiveChild( x ) && outermostUnstable() != x )
    {
      Scope sc( *this, excTag(), "stack unwinding" );
      destroyState( x, t | T( 2 ) );
      x = d( x ).parent;
    }
  }

  Tags excTag() const { return c.translator ? T( 12 ) : T( 11 ); }

  // ------------------------------------------------------------------ exit
  void exitSelf( int x, Tags t )
  {
    s.unstable[ x ] = 0;
    int p = d( x ).parent;
    if ( p >= 0 ) s.unstable[ p ] = 1;
    if ( s.full )
    {
      if ( d( x ).hasExit )
      {
        Cb cb = expectCb( K_EXIT, x, t | T( 2 ) | T( 13 ), s.addr[ x ], true );
        cover( 13, x, s.trig != 0, cb.outcome );
        if ( cb.outcome )
        {
          sticky |= excTag(); count( "throws_from_exit" ); cover( c.translator ? 12 : 11, K_EXIT, x );
          destroyState( x, t | T( 2 ) | T( 13 ) | excTag() );
          unwind( p, t );
          throw UserThrow{ cb.outcome, cb.id };
        }
      }
      if ( p >= 0 && ( d( p ).hist & 1 ) ) { s.sh[ p * 8 + d( x ).region ] = x; count( "shallow_saves" ); }
      if ( leaf( x ) )
      {
        int child = x;
        for ( int a = p; a >= 0; child = a, a = d( a ).parent )
          if ( d( a ).hist & 2 ) { s.dp[ a * 8 + d( child ).region ] = x; count( "deep_saves" ); }
      }
    }
    destroyState( x, t | T( 2 ) | ( s.full ? T( 13 ) : T( 13 ) | excTag() ) );
  }

  void exitTree( int x, Tags t )
  {
    for ( int rg = d( x ).nInner - 1; rg >= 0; --rg )
    {
      int ch = activeChild( x, rg );
      if ( ch >= 0 ) exitTree( ch, t );
    }
    exitSelf( x, t );
  }

  void destroyTree( int x, Tags t )
  {
    for ( int rg = d( x ).nInner - 1; rg >= 0; --rg )
    {
      int ch = activeChild( x, rg );
      if ( ch >= 0 ) destroyTree( ch, t );
    }
    destroyState( x, t );
  }

  int outermost() const { for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && d( k ).parent == -1 ) return k; return -1; }

  void terminateNoExit( Tags t )
  {
    s.full = true;
    int o = outermost();
    if ( o >= 0 ) { Scope sc( *this, t, "destruction after exception" ); destroyTree( o, t | T( 13 ) | T( 2 ) ); }
    clearFlags();
    s.posted.clear(); s.deferred.clear(); s.sh.clear(); s.dp.clear();
    std::fill( s.deferring.begin(), s.deferring.end(), 0 );
  }

  // ----------------------------------------------------------------- entry
  void enterState( int x, int freshContext, Tags t )
  {
    int p = d( x ).parent;
    const Rec & q = need( t | T( 3 ), "ENTER " + stName( c, x ) );
    if ( q.kind != K_ENTER || q.a != x ) fail( "expected ENTER " + stName( c, x ) + ", observed " + render( c, q ), t | T( 3 ) );
    if ( s.active[ x ] ) fail( "state entered while already active", t | T( 3 ) );
    s.active[ x ] = 1;            // its constructor may already query contexts
    s.deferring[ x ] = 0;
    Cb cb = expectCb( K_ENTER, x, t | T( 3 ), 0, true );
    if ( cb.outcome )
    {
      s.active[ x ] = 0;
      sticky |= excTag(); count( "throws_from_ctor" ); cover( c.translator ? 12 : 11, K_ENTER, x );
      unwind( p, t );
      throw UserThrow{ cb.outcome, cb.id };
    }
    if ( p >= 0 && s.unstable[ p ] && ( freshContext == p || d( x ).region == d( p ).nInner - 1 ) ) s.unstable[ p ] = 0;
    if ( leaf( x ) ) s.leafOrder.push_back( x ); else s.unstable[ x ] = 1;
  }

  void deepConstruct( int x, int fresh, Tags t )
  {
    enterState( x, fresh, t );
    for ( int rg = 0; rg < d( x ).nInner; ++rg ) constructInner( x, rg, t );
  }
  void constructInner( int x, int rg, Tags t )
  {
    const Inner & in = d( x ).inner[ rg ];
    construct( in.st, in.kind, -2, t );
  }
  void construct( int dest, int kind, int fresh, Tags t )
  {
    if ( kind == D_PLAIN ) { deepConstruct( dest, fresh, t ); return; }
    int ctxSt = d( dest ).parent;
    int key = ctxSt * 8 + d( dest ).region;
    if ( kind == D_SHALLOW )
    {
      Scope sc( *this, T( 9 ), "shallow history entry" );
      int h = s.sh.count( key ) ? s.sh[ key ] : -1;
      cover( 9, key, h + 1, dest ); count( h >= 0 ? "shallow_restores" : "shallow_defaults" );
      deepConstruct( h >= 0 ? h : dest, fresh, t );
    }
    else
    {
      Scope sc( *this, T( 10 ), "deep history entry" );
      int h = s.dp.count( key ) ? s.dp[ key ] : -1;
      cover( 10, key, h + 1, dest ); count( h >= 0 ? "deep_restores" : "deep_defaults" );
      if ( h >= 0 ) enterPath( ctxSt, h, D_PLAIN, fresh, t ); else deepConstruct( dest, fresh, t );
    }
  }
  void enterPath( int common, int dest, int kind, int fresh, Tags t )
  {
    std::vector< int > path;
    for ( int x = kind == D_PLAIN ? dest : d( dest ).parent; x != common && x >= 0; x = d( x ).parent ) path.push_back( x );
    std::reverse( path.begin(), path.end() );
    enterPathRec( path, 0, dest, kind, fresh, t );
  }
  void enterPathRec( const std::vector< int > & path, size_t k, int dest, int kind, int fresh, Tags t )
  {
    if ( kind == D_PLAIN ? k + 1 >= path.size() : k >= path.size() ) { construct( dest, kind, fresh, t ); return; }
    int x = path[ k ];
    enterState( x, fresh, t );
    int nextRegion = k + 1 < path.size() ? d( path[ k + 1 ] ).region : d( dest ).region;
    for ( int rg = 0; rg < d( x ).nInner; ++rg )
      if ( rg == nextRegion ) enterPathRec( path, k + 1, dest, kind, -2, t );
      else constructInner( x, rg, t );
  }

  // ------------------------------------------------------------- reactions
  void doAction( int actCtx, const Ev & e, Tags t )
  {
    const void * a = actCtx == -1 ? machine : s.addr[ actCtx ];
    const Rec & q = need( t | T( 4 ), "action on " + stName( c, actCtx ) );
    if ( q.kind != K_ACT || q.a != actCtx ) fail( "expected action on " + stName( c, actCtx ) + ", observed " + render( c, q ), t | T( 4 ) );
    checkEventObject( q, e, t | T( 4 ) );
    if ( actCtx >= 0 && !s.active[ actCtx ] ) fail( "action context not active", t | T( 4 ) );
    Cb cb = expectCb( K_ACT, actCtx, t | T( 4 ), a, true );
    if ( cb.outcome )
    {
      sticky |= excTag(); count( "throws_from_action" ); cover( c.translator ? 12 : 11, K_ACT, actCtx );
      throw UserThrow{ cb.outcome, cb.id };
    }
  }

  void checkEventObject( const Rec & q, const Ev & e, Tags t )
  {
    int iid = ( int )q.q;
    int uid = evUid.count( iid ) ? evUid[ iid ] : -1;
    if ( uid != e.uid )
    {
      char b[ 120 ]; snprintf( b, sizeof b, "expected event uid %d, observed uid %d (object %d)", e.uid, uid, iid );
      fail( b, t | ( lastProvenance == 1 ? T( 5 ) : lastProvenance == 2 ? T( 6 ) : 0 ) | T( 14 ) );
    }
    if ( e.iid != -1 && e.iid != iid ) softIssue( "callback received a different event object than the dispatched one", T( 14 ) | ( t & T( 4 ) ), s.i );
  }

  int commonContext( int src, int dest ) const   // proper ancestors of both
  {
    std::set< int > da;
    for ( int x = d( dest ).parent; x >= 0; x = d( x ).parent ) da.insert( x );
    for ( int x = d( src ).parent; x >= 0; x = d( x ).parent ) if ( da.count( x ) ) return x;
    return -1;
  }
  int childTowards( int anc, int x ) const { while ( d( x ).parent != anc ) x = d( x ).parent; return x; }

  void doTransit( int src, const Reaction & rx, const Ev & e )
  {
    int C = commonContext( src, rx.dest );
    int Tm = childTowards( C, src );
    Tags xt = 0;
    count( "transitions" );
    cover( 2, src, rx.dest, rx.dkind ); cover( 3, src, rx.dest, rx.dkind );
    if ( rx.act != NO_ACT ) cover( 4, src, rx.dest, rx.act + 2 );
    if ( !c.relaxed || rx.act == NO_ACT )
    {
      { Scope sc( *this, s.full ? 0 : T( 12 ), "transition exit" ); exitTree( Tm, xt ); }
      if ( rx.act != NO_ACT ) { Scope sc( *this, T( 4 ), "transition action" ); actionOrUnwind( rx.act, e, C ); }
    }
    else
    {
      // position of the requested action context among source and its contexts
      int pos = 0, upos = 0, x = src;
      if ( rx.viaBase ) pos = 1000;
      else { while ( x != rx.act && x >= 0 ) { x = d( x ).parent; ++pos; } }
      for ( x = src; x != Tm; x = d( x ).parent ) ++upos;
      upos += 1;
      if ( pos == 0 && leaf( src ) )
      {
        { Scope sc( *this, T( 4 ), "relaxed action on source" ); actionOrUnwind( rx.act, e, -2 ); }
        { Scope sc( *this, T( 4 ), "exit after relaxed action" ); exitTree( Tm, xt ); }
      }
      else if ( pos >= upos )
      {
        { Scope sc( *this, 0, "transition exit" ); exitTree( Tm, xt ); }
        { Scope sc( *this, T( 4 ), "transition action" ); actionOrUnwind( rx.act, e, C ); }
      }
      else
      {
        count( "relaxed_inner_context_actions" );
        {
          Scope sc( *this, T( 4 ), "exit before relaxed action" );
          for ( int rg = d( rx.act ).nInner - 1; rg >= 0; --rg )
          {
            int ch = activeChild( rx.act, rg );
            if ( ch >= 0 ) exitTree( ch, xt );
          }
        }
        { Scope sc( *this, T( 4 ), "relaxed action" ); actionOrUnwind( rx.act, e, rx.act ); }
        s.relaxedHold = rx.act;
        { Scope sc( *this, T( 4 ), "exit after relaxed action" ); exitTree( Tm, xt ); }
        s.relaxedHold = -1;
      }
    }
    {
      Scope sc( *this, s.full ? 0 : T( 12 ), "transition entry" );
      enterPath( C, rx.dest, rx.dkind, C, xt );
    }
  }

  void actionOrUnwind( int a, const Ev & e, int from )
  {
    try { doAction( a, e, 0 ); }
    catch ( UserThrow & ) { if ( from >= 0 ) unwind( from, 0 ); throw; }
  }

  void doTerminate( int x )
  {
    Scope sc( *this, T( 7 ) | ( s.full ? 0 : T( 12 ) ), "termination reaction" );
    count( "termination_reactions" );
    cover( 7, x, 1 );
    exitTree( x, T( 7 ) );
    for ( int p = d( x ).parent; p >= 0 && !hasActiveChild( p ); p = d( p ).parent ) exitSelf( p, T( 7 ) );
    clearFlags();
  }

  // The order in which innermost states of different regions are searched is
  // not specified. Most reactions show in the trace, so that trying the
  // orders within a dispatch settles it; a reaction that leaves no record
  // (static deferral, in-state reaction without action) does not, so the
  // outcomes possible without a record are enumerated.
  // what a silent walk starting at this leaf would end in: the state that
  // defers, SILENT_DISCARD, or -1 (not silent or not consumed)
  enum { SILENT_DISCARD = 1000 };
  int silentEnd( int x, const Ev & e ) const
  {
    for ( ; x >= 0; x = d( x ).parent )
      for ( int k = 0; k < d( x ).nReact; ++k )
      {
        const Reaction & rx = d( x ).react[ k ];
        if ( rx.ev != -1 && rx.ev != e.cls ) continue;
        if ( rx.type == R_DEFER ) return x;
        if ( rx.type == R_INSTATE && rx.act == NO_ACT ) return SILENT_DISCARD;
        return -1;
      }
    return -1;
  }

  Res silent( int x, const Ev & e, const std::vector< int > & others, int end )
  {
    std::vector< int > alt( 1, end );
    for ( int o : others )
    {
      int y = silentEnd( o, e );
      if ( y >= 0 && std::find( alt.begin(), alt.end(), y ) == alt.end() ) alt.push_back( y );
    }
    // another leaf may have been searched first and reacted visibly: that is
    // tried too, by the caller
    if ( visible( others, e ) ) alt.push_back( -1 );
    int y = alt[ choose( ( int )alt.size() ) ];
    if ( y == -1 ) fail( "another region reacts first", T( 1 ) );
    if ( y == SILENT_DISCARD ) { count( "in_state_reactions" ); cover( 4, x, 99, 1 ); return DISCARD; }
    s.deferring[ y ] = 1; count( "deferrals" ); cover( 6, y, e.cls, s.deferred.size() );
    return DEFER;
  }
  bool visible( const std::vector< int > & others, const Ev & e ) const
  {
    for ( int o : others )
    {
      bool decided = false;
      for ( int x = o; x >= 0 && !decided; x = d( x ).parent )
        for ( int k = 0; k < d( x ).nReact && !decided; ++k )
        {
          const Reaction & rx = d( x ).react[ k ];
          if ( rx.ev != -1 && rx.ev != e.cls ) continue;
          if ( rx.type != R_DEFER && !( rx.type == R_INSTATE && rx.act == NO_ACT ) ) return true;
          decided = true;
        }
    }
    return false;
  }

  int choose( int n )
  {
    if ( n <= 1 || mute ) return 0;
    size_t k = taken.size();
    int v = k < prefix.size() ? prefix[ k ] : 0;
    taken.push_back( v ); width.push_back( n );
    return v;
  }

  Res walk( int x, const Ev & e, const std::vector< int > & others )
  {
    for ( ; x >= 0; x = d( x ).parent )
    {
      for ( int k = 0; k < d( x ).nReact; ++k )
      {
        const Reaction & rx = d( x ).react[ k ];
        if ( rx.ev != -1 && rx.ev != e.cls ) continue;
        count( "reactions" );
        cover( 1, x, k, e.cls + 10 * others.size() );
        if ( rx.type == R_CUSTOM )
        {
          Tags t = T( 1 );
          const Rec & q = need( t, "REACT " + stName( c, x ) );
          if ( q.kind != K_REACT || q.a != x ) fail( "expected REACT " + stName( c, x ) + ", observed " + render( c, q ), t );
          checkEventObject( q, e, t );
          Cb cb = expectCb( K_REACT, x, t, s.addr[ x ], true );
          if ( cb.outcome )
          {
            sticky |= excTag(); count( "throws_from_react" ); cover( c.translator ? 12 : 11, K_REACT, x );
            throw UserThrow{ cb.outcome, cb.id };
          }
          const Reaction & o = d( x ).opt[ cb.opt ];
          Scope sc( *this, 0, "effect of custom reaction" );
          switch ( o.type )
          {
          case R_DISCARD: count( "discards" ); return DISCARD;
          case R_FORWARD: count( "forwards" ); goto outward;
          case R_DEFER: s.deferring[ x ] = 1; count( "deferrals" ); cover( 6, x, e.cls, s.deferred.size() ); return DEFER;
          case R_TERM: doTerminate( x ); return DISCARD;
          case R_TRANS: doTransit( x, o, e ); return DISCARD;
          default: fail( "internal: bad option", 0 );
          }
        }
        else
        {
          Scope sc( *this, T( 1 ), "static reaction" );
          switch ( rx.type )
          {
          case R_INSTATE:
            if ( rx.act == NO_ACT ) return silent( x, e, others, SILENT_DISCARD );
            count( "in_state_reactions" ); cover( 4, x, 99, rx.act + 2 );
            { Scope s2( *this, T( 4 ), "in-state action" ); doAction( rx.act, e, T( 4 ) ); }
            return DISCARD;
          case R_TRANS: doTransit( x, rx, e ); return DISCARD;
          case R_TERM: doTerminate( x ); return DISCARD;
          case R_DEFER: return silent( x, e, others, x );
          default: fail( "internal: bad reaction", 0 );
          }
        }
      }
      outward:;
    }
    return FORWARD;
  }

  Res translate( const UserThrow & t, int leafState )
  {
    peek();
    if ( c.translator == 0 || ( c.translator == 2 && t.type == 2 ) ) throw t;
    int cls = c.translator == 1 ? 5 : 6;
    Ev e; e.cls = cls; e.iid = s.lastEx[ cls ]; e.uid = evUid.count( e.iid ) ? evUid[ e.iid ] : -2; e.released = false;
    if ( !anyActive() ) throw t;
    int start = outermostUnstable();
    // Relaxed mode only, see known_findings.txt: the transition's action
    // context, not the outermost unstable state, may be asked first when an
    // exit() in another region throws after the action.
    int hold = s.relaxedHold;
    s.relaxedHold = -1;
    if ( hold >= 0 && s.active[ hold ] && start >= 0 && start != hold && choose( 2 ) == 1 )
    {
      bool above = false;
      for ( int y = hold; y >= 0; y = d( y ).parent ) if ( y == start ) above = true;
      if ( above ) softIssue( "relaxed-context transition: exit() in another region threw after the action, and the exception event was offered first to the action context instead of the outermost unstable state", T( 29 ), s.i );
      count( "relaxed_exit_throw_started_at_action_context" );
      start = hold;
      clearFlags(); s.unstable[ hold ] = 1;
    }
    count( start >= 0 ? "exception_events_unstable" : "exception_events_stable" );
    if ( start < 0 ) start = leafState;
    Scope sc( *this, T( 12 ), "exception event" );
    if ( start < 0 ) fail( "internal: exception without state to handle it", 0 );
    cover( 12, 500 + start, leafState, outermostUnstable() );
    int oldTrig = s.trig;
    s.trig = e.iid;
    s.full = false;
    int oldProv = lastProvenance; lastProvenance = 0;
    Res rs = walk( start, e, std::vector< int >() );
    lastProvenance = oldProv;
    s.full = true;
    s.trig = oldTrig;
    if ( rs != DISCARD || outermostUnstable() >= 0 ) throw t;
    count( "exceptions_handled" );
    cover( 12, 900, start );
    return DISCARD;
  }

  Res walkTranslated( int x, const Ev & e, const std::vector< int > & others )
  {
    try { return walk( x, e, others ); }
    catch ( UserThrow & t ) { UserThrow c2 = t; return translate( c2, x ); }
  }

  Res tryLeaves( const Ev & e, const std::vector< int > & rem )
  {
    if ( rem.empty() ) return FORWARD;
    Mismatch best; bool have = false;
    // Several leaves can explain what comes next: a reaction of one region may
    // look like the beginning of the reaction of another one, and what looks
    // like a reaction to the event may be one to the event released later.
    int skip = 0;
    if ( wide && rem.size() > 1 )
    {
      int deferrers = 0;
      for ( int o : rem ) { int y = silentEnd( o, e ); if ( y >= 0 && y != SILENT_DISCARD ) ++deferrers; }
      skip = choose( ( int )rem.size() + deferrers );
      if ( skip >= ( int )rem.size() )
      {
        skip -= ( int )rem.size();
        for ( int o : rem )
        {
          int y = silentEnd( o, e );
          if ( y >= 0 && y != SILENT_DISCARD && skip-- == 0 ) { s.deferring[ y ] = 1; count( "deferrals" ); return DEFER; }
        }
      }
    }
    for ( size_t k = 0; k < rem.size(); ++k )
    {
      std::vector< int > rest;
      for ( size_t j = 0; j < rem.size(); ++j ) if ( j != k ) rest.push_back( rem[ j ] );
      if ( rem.size() == 1 )
      {
        Res rs = walkTranslated( rem[ k ], e, rest );
        return rs;
      }
      St snap = s; size_t softN = soft.size(); Tags st = sticky;
      Tags cx = ctx; const char * ph = phase; TmpCov * cv = cov;
      try
      {
        int m = mute;
        if ( skip ) ++mute;
        Res rs;
        try
        {
          rs = walkTranslated( rem[ k ], e, rest );
          if ( rs == FORWARD ) rs = tryLeaves( e, rest );
        }
        catch ( ... ) { mute = m; throw; }
        mute = m;
        if ( !skip ) return rs;
        --skip;
        fail( "another region reacts first", T( 1 ) );
      }
      catch ( Mismatch & m )
      {
        if ( !have || m.is.pos > best.is.pos ) best = m;
        have = true;
        if ( --budget < 0 ) throw best;
        s = snap; soft.resize( softN ); sticky = st; ctx = cx; phase = ph; cov = cv;
      }
    }
    throw best;
  }

  Res sendEvent( const Ev & e, int provenance )
  {
    int oldTrig = s.trig;
    s.trig = e.iid;
    lastProvenance = provenance;
    peek();
    dispatchStart = s.i;
    std::vector< int > leaves = s.leafOrder;
    if ( leaves.size() > 1 ) orderMatters = true;
    if ( reversed ) std::reverse( leaves.begin(), leaves.end() );
    cover( provenance == 2 ? 6 : 5, e.cls, provenance, s.posted.size() > 3 ? 3 : s.posted.size() );
    Res rs;
    try
    {
      Scope sc( *this, 0, "dispatch" );
      rs = tryLeaves( e, leaves );
    }
    catch ( UserThrow & t )
    {
      UserThrow c2 = t;
      count( "exceptions_out_of_dispatch" );
      terminateNoExit( excTag() );
      s.trig = oldTrig;
      throw c2;
    }
    if ( rs == FORWARD )
    {
      Scope sc( *this, T( 1 ), "unconsumed" );
      count( "unconsumed" );
      cover( 1, 1000, e.cls );
      const Rec & q = need( T( 1 ), "unconsumed_event" );
      if ( q.kind != K_UNCONS ) fail( "expected unconsumed_event, observed " + render( c, q ), T( 1 ) );
      checkEventObject( q, e, T( 1 ) );
      Cb cb = expectCb( K_UNCONS, -1, T( 1 ), machine, false );
      if ( cb.outcome ) { s.trig = oldTrig; count( "throws_from_unconsumed" ); cover( 5, 2000, s.posted.size() ); throw UserThrow{ cb.outcome, cb.id }; }
    }
    s.trig = oldTrig;
    return rs;
  }

  void processQueue()
  {
    while ( !s.posted.empty() )
    {
      Ev e = s.posted.front(); s.posted.pop_front();
      count( e.released ? "dispatched_released" : "dispatched_posted" );
      int prov = e.released ? 2 : 1;
      e.released = false;
      if ( sendEvent( e, prov ) == DEFER ) s.deferred.push_back( e );
    }
    lastProvenance = 0;
  }

  // ------------------------------------------------------------------- API
  void terminateOp( Tags t )
  {
    int oldTrig = s.trig;
    s.trig = 0;
    try
    {
      try
      {
        s.full = true;
        int o = outermost();
        { Scope sc( *this, t, "terminate()" ); if ( o >= 0 ) { cover( 7, 2, s.posted.size() > 2 ? 2 : s.posted.size(), s.deferred.size() ); exitTree( o, t ); } }
        clearFlags();
        s.posted.clear(); s.deferred.clear(); s.sh.clear(); s.dp.clear();
      }
      catch ( UserThrow & u ) { UserThrow c2 = u; translate( c2, -1 ); }
    }
    catch ( UserThrow & u )
    {
      UserThrow c2 = u;
      terminateNoExit( excTag() | t );
      s.trig = oldTrig;
      throw c2;
    }
    s.trig = oldTrig;
  }

  void initiateOp()
  {
    bool was = anyActive();
    {
      Scope sc( *this, T( 19 ) );
      if ( was ) { count( "reinitiations_running" ); cover( 19, 1, s.posted.size() > 2 ? 2 : s.posted.size(), s.deferred.size() ); }
      terminateOp( T( 19 ) | T( 7 ) );
      if ( anyActive() )
      {
        // termination failed, but the failure was handled by moving to some
        // other configuration: a run cannot start on top of it
        count( "reinitiation_after_handled_termination_failure" );
        terminateNoExit( T( 19 ) | T( 12 ) );
      }
      // whatever happened, a new run starts without pending events and history
      s.posted.clear(); s.deferred.clear(); s.sh.clear(); s.dp.clear();
    }
    ++runs;
    int oldTrig = s.trig;
    s.trig = 0;
    try
    {
      Scope sc( *this, T( 3 ) | ( runs > 1 ? T( 19 ) : 0 ), "initiate()" );
      cover( 19, 2, runs > 1 );
      try { deepConstruct( c.initial, -2, T( 3 ) ); }
      catch ( UserThrow & u ) { UserThrow c2 = u; translate( c2, -1 ); }
    }
    catch ( UserThrow & u )
    {
      UserThrow c2 = u;
      terminateNoExit( excTag() );
      s.trig = oldTrig;
      throw c2;
    }
    s.trig = oldTrig;
    processQueue();
  }

  void apiCall( const Rec & a )
  {
    static const char * ops[] = { "api initiate", "api terminate", "api process_event", "api post", "api query", "api clear" };
    phase = ops[ a.a ];
    count( ops[ a.a ] );
    UserThrow out = { 0, 0 };
    Ev held; held.iid = -1;
    int capi = a.a;
    try
    {
      switch ( capi )
      {
      case OP_INITIATE: initiateOp(); break;
      case OP_TERMINATE: terminateOp( T( 7 ) ); break;
      case OP_PROCESS:
      {
        Ev e; e.uid = a.b; e.iid = ( int )( a.q >> 1 ); e.cls = evCls[ e.iid ]; e.released = false;
        bool counted = a.q & 1;
        s.copies.clear();
        held = e;
        if ( sendEvent( e, 0 ) == DEFER )
        {
          peek();
          int n = 0, copy = -1;
          for ( auto & cp : s.copies ) if ( cp.first == e.iid ) { ++n; copy = cp.second; }
          if ( counted )
          {
            if ( n ) softIssue( "deferring a reference-counted event must not copy it", T( 14 ) | T( 6 ), s.i );
          }
          else if ( n != 1 )
          { softIssue( "deferring a not reference-counted event must store exactly one copy", T( 14 ) | T( 6 ), s.i ); e.iid = -1; }
          else e.iid = copy;
          s.deferred.push_back( e );
        }
        processQueue();
        break;
      }
      case OP_POST: userActions( "post from outside", -1 ); break;
      case OP_CLEARH: userActions( "clear from outside", -1 ); break;
      }
    }
    catch ( UserThrow & u ) { out = u; }
    phase = "api end";
    const Rec & e = need( T( 1 ), "return from API call" );
    if ( e.kind != K_APIEND ) fail( "expected the call to return, observed " + render( c, e ), ( s.posted.empty() ? 0 : T( 5 ) ) | ( capi == OP_TERMINATE ? T( 7 ) : 0 ) );
    if ( e.a != out.type || ( out.type && e.b != out.id ) )
    {
      char b[ 140 ]; snprintf( b, sizeof b, "call ended with outcome %d/%d, expected %d/%d", e.a, e.b, out.type, out.id );
      fail( b, excTag() | T( 11 ) | T( 12 ) );
    }
    if ( out.type ) count( "api_calls_ended_by_exception" );
    checkDead();
    ++s.i;
    apiEndChecks( capi );
  }

  // event objects still alive must be exactly those queued plus those the
  // caller holds (the harness reports its own through K_NOTE a=1 records)
  std::set< int > callerHeld;
  void apiEndChecks( int )
  {
    std::set< int > ok;
    for ( const Ev & e : s.posted ) ok.insert( e.iid );
    for ( const Ev & e : s.deferred ) ok.insert( e.iid );
    if ( !s.posted.empty() && cov ) count( "api_ended_with_pending_events" );
    cover( 14, s.posted.size() > 3 ? 3 : s.posted.size(), s.deferred.size() > 5 ? 5 : s.deferred.size() );
    cover( 15, 1, s.posted.size() > 3 ? 3 : s.posted.size(), s.deferred.size() > 5 ? 5 : s.deferred.size() );
    for ( int iid : s.alive )
      if ( !ok.count( iid ) && !callerHeld.count( iid ) )
      {
        char b[ 100 ]; snprintf( b, sizeof b, "event object %d still alive although in no queue", iid );
        softIssue( b, T( 14 ) | T( 15 ), s.i );
        return;
      }
  }

  void run()
  {
    // facts about event objects are independent of the search
    callerHeld.clear();
    for ( size_t k = 0; k < r.size(); ++k )
    {
      if ( r[ k ].kind == K_EVNEW ) { evCls[ ( int )r[ k ].q ] = r[ k ].a; evUid[ ( int )r[ k ].q ] = r[ k ].b; }
      if ( r[ k ].kind == K_EVCOPY ) { evCls[ ( int )r[ k ].q ] = r[ k ].a; evUid[ ( int )r[ k ].q ] = evUid.count( r[ k ].b ) ? evUid[ r[ k ].b ] : -1; }
    }
    // caller-made events live outside API calls: those created while no call
    // and no callback is active
    bool inApi = false;
    for ( size_t k = 0; k < r.size(); ++k )
    {
      if ( r[ k ].kind == K_API ) inApi = true;
      if ( r[ k ].kind == K_APIEND ) inApi = false;
      if ( r[ k ].kind == K_EVNEW && !inApi ) callerHeld.insert( ( int )r[ k ].q );
    }
    while ( const Rec * x = peek() )
    {
      switch ( x->kind )
      {
      case K_MCREATE: machine = x->p; exists = true; runs = 0; ++s.i; break;
      case K_API: { Rec a = *x; ++s.i; apiCall( a ); break; }
      case K_QBEGIN: phase = "observers"; query( T( 8 ), true ); break;
      case K_QTRIG:
        if ( x->b != 0 ) softIssue( "triggering_event() is not null outside any reaction", T( 16 ), s.i );
        ++s.i; break;
      case K_MDESTROY:
      {
        ++s.i;
        Scope sc( *this, T( 7 ), "machine destruction" );
        count( "machine_destructions" );
        int o = outermost();
        if ( o >= 0 ) { cover( 7, 3 ); cover( 13, 3 ); destroyTree( o, T( 7 ) | T( 13 ) | T( 2 ) ); }
        clearFlags();
        // queues are dropped
        s.posted.clear(); s.deferred.clear(); s.sh.clear(); s.dp.clear();
        std::fill( s.deferring.begin(), s.deferring.end(), 0 );
        const Rec & e = need( T( 7 ), "end of machine destruction" );
        if ( e.kind != K_MDESTROYED ) fail( "expected end of machine destruction, observed " + render( c, e ), T( 7 ) );
        ++s.i;
        apiEndChecks( -1 );
        break;
      }
      default: fail( "library called user code outside any call: " + render( c, *x ), T( 1 ) );
      }
    }
    if ( truncated ) throw Trunc{ ctx | sticky | T( 8 ), "between calls (observers / harness)", s.i };
  }
};

void Checker::query( Tags t, bool )
{
  // records K_QBEGIN .. K_QEND
  size_t begin = s.i;
  const Rec & b = r[ s.i++ ];
  count( "observer_snapshots" );
  bool term = !anyActive();
  cover( 8, 1 );
  if ( ( b.a != 0 ) != term ) softIssue( term ? "terminated() is false although no state is active" : "terminated() is true although states are active", t | T( 7 ), begin );
  if ( ( b.b != 0 ) != term ) softIssue( "state range empty/non-empty does not match the active configuration", t, begin );
  std::set< int > leaves;
  std::vector< std::pair< int, const void * > > chain;
  int curLeaf = -1;
  for ( ;; )
  {
    if ( s.i >= r.size() )
    {
      if ( truncated ) throw Trunc{ t | ctx | sticky, "inside observers", s.i };
      fail( "trace ends inside observers", t );
    }
    const Rec & x = r[ s.i ];
    if ( x.kind == K_QEND ) { ++s.i; break; }
    switch ( x.kind )
    {
    case K_QLEAF:
      if ( x.a < 0 || x.a >= c.nStates || !s.active[ x.a ] )
      { softIssue( "iteration yields a state that is not active: " + stName( c, x.a ), t, s.i ); curLeaf = -1; break; }
      if ( x.b == 0 )
      {
        if ( curLeaf >= 0 && d( curLeaf ).parent != -1 ) softIssue( "outer state chain of " + stName( c, curLeaf ) + " ends too early", t, s.i );
        if ( !leaf( x.a ) ) softIssue( "iteration yields a non-innermost state", t, s.i );
        if ( !leaves.insert( x.a ).second ) softIssue( "iteration yields a state twice: " + stName( c, x.a ), t, s.i );
      }
      else if ( curLeaf >= 0 && d( curLeaf ).parent != x.a )
        softIssue( "outer_state_ptr() of " + stName( c, curLeaf ) + " yields " + stName( c, x.a ), t, s.i );
      if ( x.p != s.addr[ x.a ] ) softIssue( "iteration yields a wrong object for " + stName( c, x.a ), t, s.i );
      curLeaf = x.a;
      break;
    case K_QDOWN: case K_QCAST:
    {
      const void * want = s.active[ x.a ] ? s.addr[ x.a ] : 0;
      count( "casts" );
      cover( 8, 2, x.a, x.kind * 2 + x.b );
      if ( x.p != want )
        softIssue( std::string( x.kind == K_QDOWN ? "state_downcast" : "state_cast" ) + ( x.b ? " (reference)" : "" ) + " to " + stName( c, x.a ) +
          ( want ? x.p ? " yields a different object" : " does not find the active state" : " finds a state that is not active" ), t, s.i );
      break;
    }
    case K_QIFC:
    {
      bool any = false, match = false;
      for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && ( d( k ).ifcMask >> x.a & 1 ) ) { any = true; if ( s.addr[ k ] == x.p ) match = true; }
      count( "interface_casts" );
      cover( 8, 3, x.a, x.b );
      if ( any ? !match : x.p != 0 ) softIssue( "state_cast to an interface yields the wrong object", t, s.i );
      break;
    }
    case K_QTRIG: break;
    default:
      if ( isSide( x.kind ) ) side( x, s.i );
      else fail( "library called user code during observers", t );
    }
    ++s.i;
  }
  if ( curLeaf >= 0 && d( curLeaf ).parent != -1 ) softIssue( "outer state chain of " + stName( c, curLeaf ) + " ends too early", t, begin );
  size_t n = 0;
  for ( int k = 0; k < c.nStates; ++k ) if ( s.active[ k ] && leaf( k ) ) ++n;
  if ( n != leaves.size() ) softIssue( "iteration misses active innermost states", t, begin );
}

} // namespace

// clean: some choice explains the whole trace; tooMany: no verdict
enum Verdict { CLEAN, ISSUES, TOO_MANY };
static bool usualOrder = false;           // the order that explained the last trace
static long effort = 30000000;            // records to spend on wrong guesses before traces are given up early

static Verdict search( const Chart & c, const std::vector< Rec > & recs, bool truncated, Coverage * cov, bool strict, bool wide, std::vector< Issue > & out )
{
  std::vector< int > prefix;
  std::vector< int > firstNext;
  Issue furthest; bool have = false, exhausted = false;
  // attempt 0: the usual order, attempt 1: the opposite one, then other choices
  for ( int attempt = 0; attempt < ( effort <= 0 ? 40 : wide ? 3000 : 400 ); ++attempt )
  {
    if ( attempt > 1 ) effort -= ( long )recs.size();
    bool opposite = attempt == 1;
    TmpCov tmp;
    Checker k( c, recs, truncated, cov ? &tmp : 0 );
    k.reset();
    k.prefix = prefix;
    k.strict = strict; k.wide = wide;
    k.reversed = usualOrder != opposite;
    bool bad = false;
    try { k.run(); }
    catch ( Mismatch & m ) { bad = true; if ( !have || m.is.pos > furthest.pos ) { furthest = m.is; furthest.msg += k.where( m.is.pos ); out = k.soft; } have = true; }
    catch ( Trunc & t )
    {
      Issue is; is.tags = t.tags | T( 15 ); is.pos = t.pos; is.msg = "process died; " + t.what + k.where( recs.empty() ? 0 : recs.size() - 1 );
      out = k.soft; out.push_back( is );
      return ISSUES;
    }
    catch ( UserThrow & ) { bad = true; if ( !have ) { furthest.tags = 0; furthest.msg = "internal: uncaught model exception"; furthest.pos = 0; have = true; } }
    if ( !bad )
    {
      if ( cov )
      {
        for ( auto & e : tmp.keys ) cov->keys[ e.first ].insert( e.second );
        for ( auto & e : tmp.cnt ) cov->cnt[ e.first ] += e.second;
      }
      usualOrder = k.reversed;
      for ( Issue & i : k.soft ) i.msg += k.where( i.pos );
      out = k.soft;
      return out.empty() ? CLEAN : ISSUES;
    }
    // next choice string, depth first
    if ( opposite ) { prefix = firstNext; if ( prefix.empty() ) { exhausted = true; break; } continue; }
    std::vector< int > tk = k.taken, w = k.width;
    while ( !tk.empty() && tk.back() + 1 >= w.back() ) { tk.pop_back(); w.pop_back(); }
    if ( !tk.empty() ) ++tk.back();
    if ( attempt == 0 ) { firstNext = tk; if ( !k.orderMatters ) { if ( tk.empty() ) { exhausted = true; break; } ++attempt; prefix = tk; } continue; }
    if ( tk.empty() ) { exhausted = true; break; }
    prefix = tk;
  }
  if ( !exhausted )
  {
    // too many unrecorded choices to try: no verdict on this trace
    if ( cov && !wide ) cov->cnt[ "inconclusive_traces" ]++;
    out.clear();
    return TOO_MANY;
  }
  out.push_back( furthest );
  return ISSUES;
}

std::vector< Issue > check( const Chart & c, const std::vector< Rec > & recs, bool truncated, Coverage * cov )
{
  // An issue after which the model could carry on may be due to a wrong guess
  // made before it, so first look for choices that explain everything; only if
  // there are none, what the best choice leaves unexplained is reported.
  std::vector< Issue > out;
  if ( search( c, recs, truncated, cov, true, false, out ) != ISSUES ) return std::vector< Issue >();
  out.clear();
  if ( search( c, recs, truncated, cov, true, true, out ) == CLEAN ) return std::vector< Issue >();
  out.clear();
  if ( search( c, recs, truncated, cov, false, false, out ) == TOO_MANY ) out.clear();
  return out;
}


std::vector< std::string > normalise( const Chart & c, const std::vector< Rec > & recs, bool )
{
  std::vector< std::string > o;
  std::map< const void *, int > act;
  std::map< int64_t, int > ids, uids, exs;
  auto id = [&]( std::map< int64_t, int > & m, int64_t v ) -> int
  { if ( v <= 0 ) return ( int )v; auto f = m.find( v ); if ( f != m.end() ) return f->second; int n = ( int )m.size() + 1; m[ v ] = n; return n; };
  for ( const Rec & r : recs )
  {
    char b[ 160 ];
    auto who = [&]( const void * p ) -> int { auto f = act.find( p ); return p == 0 ? -9 : f == act.end() ? -1 : f->second; };
    switch ( r.kind )
    {
    case K_ENTER: act[ r.p ] = r.a; snprintf( b, sizeof b, "ENTER %s t%d", stName( c, r.a ).c_str(), id( ids, r.b ) ); break;
    case K_DTOR: snprintf( b, sizeof b, "DTOR %s %d", stName( c, r.a ).c_str(), who( r.p ) ); act.erase( r.p ); break;
    case K_EXIT: snprintf( b, sizeof b, "EXIT %s %d t%d", stName( c, r.a ).c_str(), who( r.p ), id( ids, r.b ) ); break;
    case K_ACT: case K_REACT: case K_UNCONS:
      snprintf( b, sizeof b, "%s %s %d t%d e%d", kindName( r.kind ), stName( c, r.a ).c_str(), who( r.p ), id( ids, r.b ), id( ids, r.q ) ); break;
    case K_END: snprintf( b, sizeof b, "END %d x%d o%ld", r.a, id( exs, r.b ), ( long )r.q ); break;
    case K_API: snprintf( b, sizeof b, "API %d u%d e%d", r.a, id( uids, r.b ), id( ids, r.q >> 1 ) ); break;
    case K_APIEND: snprintf( b, sizeof b, "APIEND %d x%d", r.a, id( exs, r.b ) ); break;
    case K_POST: snprintf( b, sizeof b, "POST %d u%d e%d", r.a, id( uids, r.b ), id( ids, r.q ) ); break;
    case K_CTX: snprintf( b, sizeof b, "CTX %d %d -> %d", r.a, r.b, who( r.p ) ); break;
    case K_QLEAF: snprintf( b, sizeof b, "QLEAF %d %d %d", r.a, r.b, who( r.p ) ); break;
    case K_QDOWN: case K_QCAST: if ( r.b ) continue;   // the reference forms are sampled
    // fall through
    case K_QIFC: snprintf( b, sizeof b, "%s %d %d %d", kindName( r.kind ), r.a, r.b, who( r.p ) ); break;
    case K_QTRIG: snprintf( b, sizeof b, "QTRIG %d", id( ids, r.b ) ); break;
    case K_EVNEW: snprintf( b, sizeof b, "EVNEW %d u%d e%d", r.a, id( uids, r.b ), id( ids, r.q ) ); break;
    case K_EVCOPY: { int src = id( ids, r.b ); int n = id( ids, r.q ); snprintf( b, sizeof b, "EVCOPY %d e%d e%d", r.a, src, n ); break; }
    case K_EVDTOR: snprintf( b, sizeof b, "EVDTOR u%d e%d", id( uids, r.b ), id( ids, r.q ) ); break;
    case K_MCREATE: case K_NOTE: continue;
    default: snprintf( b, sizeof b, "%s %d %d", kindName( r.kind ), r.a, r.b );
    }
    o.push_back( b );
  }
  return o;
}

} // namespace model
