// Relaxed build mode: an exit() in another region throws after the action of
// a transition with an inner action context. The outermost unstable state is O.
#define BOOST_STATECHART_RELAX_TRANSITION_CONTEXT
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <boost/mpl/list.hpp>
#include <cstdio>
#include <memory>
#include <string>
namespace sc = boost::statechart;
static std::string log_;
struct E : sc::event< E > {};
struct O; struct N; struct R0; struct R1; struct L;
struct M : sc::state_machine< M, O, std::allocator< sc::none >, sc::exception_translator<> > {};
struct O : sc::simple_state< O, M, boost::mpl::list< R0, R1 > >
{
  typedef sc::custom_reaction< sc::exception_thrown > reactions;
  sc::result react( const sc::exception_thrown & ) { log_ += "O "; return forward_event(); }
};
struct R0 : sc::simple_state< R0, O::orthogonal< 0 >, L >
{
  void act( const E & ) {}
  typedef sc::custom_reaction< sc::exception_thrown > reactions;
  sc::result react( const sc::exception_thrown & ) { log_ += "R0 "; return forward_event(); }
};
struct L : sc::simple_state< L, R0 > { typedef sc::transition< E, N, R0, &R0::act > reactions; };
struct R1 : sc::simple_state< R1, O::orthogonal< 1 > > { void exit() { throw 1; } };
struct N : sc::simple_state< N, M > {};
int main()
{
  M m; m.initiate();
  try { m.process_event( E() ); } catch ( int ) { log_ += "thrown"; }
  if ( log_ == "O thrown" ) return 0;
  if ( log_ == "R0 O thrown" ) printf( "relaxed-context transition: exit() in another region threw after the action, and the exception event was offered first to the action context instead of the outermost unstable state\n" );
  else printf( "unexpected: %s\n", log_.c_str() );
  return 1;
}
