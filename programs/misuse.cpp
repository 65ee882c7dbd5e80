// C28: every way of obtaining and losing a reaction result, of using a context
// that is not there, and of misdeclaring a most-derived type; and the correct
// counterparts. One case per process: misuse.exe CASE ; "list" names them all.
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <stdexcept>
#include <unistd.h>

namespace sc = boost::statechart;
namespace mpl = boost::mpl;

static void continued() { fputs( "CONTINUED\n", stdout ); fflush( stdout ); }
static void step( const char * s ) { printf( "%s\n", s ); fflush( stdout ); }

enum Fn { DISCARD, FORWARD, DEFER, TRANSIT, TRANSIT_ACT, TERMINATE_, NFN };
static const char * fnName[] = { "discard_event", "forward_event", "defer_event", "transit", "transit_with_action", "terminate" };
enum Pattern { DROP_THEN_RETURN, RETURN_DUPLICATE, DROP_IN_EXIT, DROP_IN_CTOR, DROP_IN_ACTION, DROP_IN_EXCEPTION_REACTION, DROP_VOIDED, STORE_AND_LOSE, CALL_FROM_OUTSIDE,
  OK_RETURN, OK_LOCAL, OK_HELPER, OK_COPY_CHAIN, OK_EXCEPTION_REACTION, NPATTERN };
static const char * patName[] = { "dropped_then_other_returned", "duplicated", "dropped_in_exit", "dropped_in_constructor", "dropped_in_action", "dropped_in_exception_reaction",
  "cast_to_void", "stored_and_lost", "called_from_outside", "returned", "returned_local", "returned_by_helper", "returned_through_copies", "returned_from_exception_reaction" };
static bool misuse( int p ) { return p < OK_RETURN; }

struct EvGo : sc::event< EvGo > {};
struct EvAct : sc::event< EvAct > {};
struct EvX : sc::event< EvX > {};

template< int F, int P > struct M;
template< int F, int P > struct Outer;
template< int F, int P > struct A;
template< int F, int P > struct B;

template< int F, int P > struct M : sc::state_machine< M< F, P >, Outer< F, P >, std::allocator< sc::none >, sc::exception_translator<> >
{
  void action( const EvGo & ) {}
  void unconsumed_event( const sc::event_base & ) { step( "unconsumed" ); }
};
template< int F, int P > struct Outer : sc::simple_state< Outer< F, P >, M< F, P >, mpl::list< A< F, P > > >
{
  typedef sc::custom_reaction< EvX > reactions;
  void action( const EvGo & ) {}
  void inAction( const EvAct & );
  sc::result react( const EvX & ) { return this->discard_event(); }
};
template< int F, class S > sc::result call( S & s )
{
  return F == DISCARD ? s.discard_() : F == FORWARD ? s.forward_() : F == DEFER ? s.defer_() : F == TRANSIT ? s.transit_() : F == TRANSIT_ACT ? s.transitAct_() : s.terminate_();
}
template< int F, int P > struct A : sc::state< A< F, P >, Outer< F, P > >
{
  typedef sc::state< A< F, P >, Outer< F, P > > base;
  typedef mpl::list< sc::custom_reaction< EvGo >, sc::in_state_reaction< EvAct, Outer< F, P >, &Outer< F, P >::inAction >, sc::custom_reaction< sc::exception_thrown > > reactions;
  A( typename base::my_context c ) : base( c ) {}
  sc::result discard_() { return this->discard_event(); }
  sc::result forward_() { return this->forward_event(); }
  sc::result defer_() { return this->defer_event(); }
  sc::result transit_() { return this->template transit< B< F, P > >(); }
  sc::result transitAct_() { return this->template transit< B< F, P > >( &Outer< F, P >::action, EvGo() ); }
  sc::result terminate_() { return this->terminate(); }
  void exit() { if ( P == DROP_IN_EXIT ) { if ( F == DISCARD ) this->discard_event(); else this->forward_event(); continued(); } }
  sc::result react( const EvGo & )
  {
    switch ( P )
    {
    case DROP_THEN_RETURN: call< F >( *this ); continued(); return this->discard_event();
    case DROP_VOIDED: ( void )call< F >( *this ); continued(); return this->discard_event();
    case RETURN_DUPLICATE: { sc::result r( call< F >( *this ) ); sc::result a( r ); sc::result b( r ); continued(); return b; }
    case STORE_AND_LOSE: { { sc::result r( call< F >( *this ) ); } continued(); return this->discard_event(); }
    case DROP_IN_EXCEPTION_REACTION: case OK_EXCEPTION_REACTION: throw std::runtime_error( "x" );
    case OK_LOCAL: { sc::result r = call< F >( *this ); return r; }
    case OK_HELPER: return call< F >( *this );
    case OK_COPY_CHAIN: { sc::result r( call< F >( *this ) ); sc::result a( r ); sc::result b( a ); return b; }
    case OK_RETURN:
      if ( F == DISCARD ) return this->discard_event();
      if ( F == FORWARD ) return this->forward_event();
      if ( F == DEFER ) return this->defer_event();
      if ( F == TRANSIT ) return this->template transit< B< F, P > >();
      if ( F == TRANSIT_ACT ) return this->template transit< B< F, P > >( &M< F, P >::action, EvGo() );
      return this->terminate();
    default: return this->template transit< B< F, P > >();
    }
  }
  sc::result react( const sc::exception_thrown & )
  {
    if ( P == DROP_IN_EXCEPTION_REACTION ) { call< F >( *this ); continued(); return this->discard_event(); }
    return call< F == FORWARD ? DISCARD : F == DEFER ? DISCARD : F >( *this );
  }
};
template< int F, int P > void Outer< F, P >::inAction( const EvAct & )
{
  if ( P == DROP_IN_ACTION ) { call< F >( const_cast< A< F, P > & >( this->template state_cast< const A< F, P > & >() ) ); continued(); }
}
template< int F, int P > struct B : sc::state< B< F, P >, Outer< F, P > >
{
  typedef sc::state< B< F, P >, Outer< F, P > > base;
  B( typename base::my_context c ) : base( c )
  {
    step( "entered B" );
    if ( P == DROP_IN_CTOR ) { if ( F == DISCARD ) this->discard_event(); else this->forward_event(); continued(); }
  }
};

struct Case { bool bad; std::function< void() > run; };
static std::map< std::string, Case > & cases() { static std::map< std::string, Case > c; return c; }

template< int F, int P > void runOne()
{
  M< F, P > m;
  m.initiate();
  if ( P == DROP_IN_ACTION ) m.process_event( EvAct() );
  else if ( P == CALL_FROM_OUTSIDE )
  {
    A< F, P > & a = const_cast< A< F, P > & >( m.template state_cast< const A< F, P > & >() );
    call< F == DEFER ? DISCARD : F >( a );
    continued();
  }
  else m.process_event( EvGo() );
  step( "after" );
  m.process_event( EvX() );
  m.terminate();
}
template< int F, int P > struct AddP
{
  static void add()
  {
    bool skip = ( ( P == DROP_IN_EXIT || P == DROP_IN_CTOR ) && F != DISCARD && F != FORWARD ) || ( ( P == DROP_IN_EXCEPTION_REACTION || P == OK_EXCEPTION_REACTION || P == CALL_FROM_OUTSIDE ) && ( F == DEFER ) ) ||
      ( P == DROP_IN_EXCEPTION_REACTION && F == FORWARD && false );
    if ( !skip ) { Case c = { misuse( P ), &runOne< F, P > }; cases()[ std::string( patName[ P ] ) + ":" + fnName[ F ] ] = c; }
    AddP< F, P + 1 >::add();
  }
};
template< int F > struct AddP< F, NPATTERN > { static void add() { AddP< F + 1, 0 >::add(); } };
template< int P > struct AddP< NFN, P > { static void add() {} };

// ------------------------------------------------ no context in the constructor
enum Ctx { C_CONTEXT, C_CONTEXT_CONST, C_OUTERMOST, C_OUTERMOST_CONST, C_POST, C_POST_REF, C_CAST, C_DOWNCAST, C_BEGIN, C_TRIGGER, C_CONTEXT_OUTER, NCTX };
static const char * ctxName[] = { "context", "context_const", "outermost_context", "outermost_context_const", "post_event", "post_event_reference", "state_cast", "state_downcast", "state_begin", "triggering_event", "context_of_outer_state" };
template< int K, bool Good, int Depth > struct CM;
template< int K, bool Good, int Depth > struct CO;
template< int K, bool Good, int Depth > struct CS;
template< int K, bool Good, int Depth > struct CM : sc::state_machine< CM< K, Good, Depth >, CO< K, Good, Depth > > {};
template< int K, class S, class O, class Mch > void useContext( S & s )
{
  const S & c = s;
  if ( K == C_CONTEXT ) ( void )s.template context< Mch >();
  if ( K == C_CONTEXT_CONST ) ( void )c.template context< Mch >();
  if ( K == C_OUTERMOST ) ( void )s.outermost_context();
  if ( K == C_OUTERMOST_CONST ) ( void )c.outermost_context();
  if ( K == C_POST ) s.post_event( boost::intrusive_ptr< const sc::event_base >( new EvX ) );
  if ( K == C_POST_REF ) s.post_event( EvX() );
  if ( K == C_CAST ) ( void )c.template state_cast< const S * >();
  if ( K == C_DOWNCAST ) ( void )c.template state_downcast< const S * >();
  if ( K == C_BEGIN ) { if ( c.state_begin() != c.state_end() ) step( "running" ); }
  if ( K == C_TRIGGER ) ( void )s.triggering_event();
  if ( K == C_CONTEXT_OUTER ) ( void )s.template context< O >();
}
template< int K, bool Good, int Depth > struct CO : sc::simple_state< CO< K, Good, Depth >, CM< K, Good, Depth >, mpl::list< CS< K, Good, Depth > > >
{
  CO() { if ( !Good && Depth == 0 ) { useContext< K == C_CONTEXT_OUTER ? C_CONTEXT : K, CO, CM< K, Good, Depth >, CM< K, Good, Depth > >( *this ); continued(); } }
};
template< int K, int Depth > struct CSGood;
// the bad one: simple_state; the good one: state
template< int K, int Depth > struct CS< K, false, Depth > : sc::simple_state< CS< K, false, Depth >, CO< K, false, Depth > >
{
  CS() { if ( Depth == 1 ) { useContext< K, CS, CO< K, false, Depth >, CM< K, false, Depth > >( *this ); continued(); } }
};
template< int K, int Depth > struct CS< K, true, Depth > : sc::state< CS< K, true, Depth >, CO< K, true, Depth > >
{
  typedef sc::state< CS< K, true, Depth >, CO< K, true, Depth > > base;
  CS( typename base::my_context c ) : base( c ) { useContext< K, CS, CO< K, true, Depth >, CM< K, true, Depth > >( *this ); }
  void exit() { useContext< K == C_POST || K == C_POST_REF ? C_CONTEXT : K, CS, CO< K, true, Depth >, CM< K, true, Depth > >( *this ); }
};
template< int K, bool Good, int Depth > void runCtx() { CM< K, Good, Depth > m; m.initiate(); step( "after" ); m.process_event( EvX() ); m.terminate(); }
template< int K > struct AddC
{
  static void add()
  {
    std::string n = std::string( "constructor:" ) + ctxName[ K ];
    if ( K != C_CONTEXT_OUTER ) { Case c = { true, &runCtx< K, false, 0 > }; cases()[ n + ":outermost_simple_state" ] = c; }
    { Case c = { true, &runCtx< K, false, 1 > }; cases()[ n + ":inner_simple_state" ] = c; }
    { Case c = { false, &runCtx< K, true, 1 > }; cases()[ n + ":state" ] = c; }
    AddC< K + 1 >::add();
  }
};
template<> struct AddC< NCTX > { static void add() {} };

// ------------------------------------------------ misdeclared most-derived type
struct BaseEv : sc::event< BaseEv > { int a; };
struct BadEv : BaseEv { char more[ 64 ]; };
struct MidEv : BaseEv {};
struct GoodBase { virtual ~GoodBase() {} int a; };
struct GoodEv : GoodBase, sc::event< GoodEv > { char more[ 64 ]; };
struct SM;
struct SA;
struct SM : sc::state_machine< SM, SA > { void post( const boost::intrusive_ptr< const sc::event_base > & p ) { post_event( p ); } };
struct SA : sc::simple_state< SA, SM > { typedef sc::custom_reaction< EvX > reactions; sc::result react( const EvX & ) { return discard_event(); } };
struct SB : SA { char more[ 48 ]; };
struct SAllocEv;
template< class T > struct MyAlloc : std::allocator< T > { template< class U > struct rebind { typedef MyAlloc< U > other; }; MyAlloc() {} template< class U > MyAlloc( const MyAlloc< U > & ) {} };
struct BaseEvA : sc::event< BaseEvA, MyAlloc< int > > { int a; };
struct BadEvA : BaseEvA { char more[ 64 ]; };

static void addMisc()
{
  auto bad = [ & ]( const char * n, std::function< void() > f ) { Case c = { true, f }; cases()[ n ] = c; };
  auto good = [ & ]( const char * n, std::function< void() > f ) { Case c = { false, f }; cases()[ n ] = c; };
  bad( "most_derived:event_subclass_allocated", [] { boost::intrusive_ptr< const sc::event_base > p( new BadEv ); continued(); } );
  bad( "most_derived:event_subclass_allocated_custom_allocator", [] { boost::intrusive_ptr< const sc::event_base > p( new BadEvA ); continued(); } );
  bad( "most_derived:state_subclass_allocated", [] { SB * p = new SB; continued(); delete p; } );
  good( "most_derived:event_allocated", [] { boost::intrusive_ptr< const sc::event_base > p( new GoodEv ), q( new BaseEv ), r( new BaseEvA ); SM m; m.initiate(); m.process_event( *p ); m.process_event( *q ); m.process_event( BadEv() ); } );
  bad( "post:null_event", [] { SM m; m.initiate(); m.post( boost::intrusive_ptr< const sc::event_base >() ); continued(); } );
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
  bad( "custom_id:event_read_as_other_type", [] { static int id; EvGo::custom_static_type_ptr( &id ); EvGo e; ( void )e.custom_dynamic_type_ptr< char >(); continued(); } );
  bad( "custom_id:state_read_as_other_type", [] { static int id; SA::custom_static_type_ptr( &id ); ( void )SA::custom_static_type_ptr< long >(); continued(); } );
  good( "custom_id:right_type", []
  {
    static int id; static char idc;
    EvGo e; EvX x; SM m; m.initiate();
    if ( e.custom_dynamic_type_ptr< int >() || SA::custom_static_type_ptr< char >() ) _exit( 9 );
    EvGo::custom_static_type_ptr( &id ); SA::custom_static_type_ptr( &idc );
    if ( e.custom_dynamic_type_ptr< int >() != &id || x.custom_dynamic_type_ptr< long >() || m.state_begin()->custom_dynamic_type_ptr< char >() != &idc ) _exit( 9 );
  } );
#endif
}

int main( int argc, char ** argv )
{
  AddP< 0, 0 >::add(); AddC< 0 >::add(); addMisc();
  std::string a = argc > 1 ? argv[ 1 ] : "list";
  if ( a == "list" ) { for ( auto & c : cases() ) printf( "%c\t%s\n", c.second.bad ? 'M' : 'C', c.first.c_str() ); return 0; }
  auto f = cases().find( a );
  if ( f == cases().end() ) return 4;
  try { f->second.run(); } catch ( std::exception & e ) { printf( "exception %s\n", e.what() ); return 6; }
  printf( "FINISHED\n" );
  return 0;
}
