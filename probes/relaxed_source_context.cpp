// Relaxed build mode: "the transition action can be a member of either the
// transition source or any direct or indirect outer context and is called as
// soon as all possibly active inner states have been exited" (configuration.html)
#define BOOST_STATECHART_RELAX_TRANSITION_CONTEXT
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/event.hpp>
#include <cstdio>
#include <string>
namespace sc = boost::statechart;
static std::string log_;
struct E : sc::event< E > {};
struct A; struct A1; struct B; struct B2;
struct M : sc::state_machine< M, A > {};
struct A : sc::simple_state< A, M, A1 >
{
  void act( const E & );
  typedef sc::transition< E, B, A, &A::act > reactions;
  void exit() { log_ += "xA "; }
};
void A::act( const E & ) { log_ += "actA "; }
struct A1 : sc::simple_state< A1, A > { void exit() { log_ += "xA1 "; } };
struct B : sc::simple_state< B, M >
{
  B() { log_ += "eB "; }
  void act( const E & );
  typedef sc::transition< E, A, B, &B::act > reactions;
  void exit() { log_ += "xB "; }
};
void B::act( const E & ) { log_ += "actB "; }
int main()
{
  M m; m.initiate();
  m.process_event( E() );
  if ( log_ != "xA1 actA xA eB " ) { printf( "inner states of the source, its own action, its exit, the destination expected; observed: %s\n", log_.c_str() ); return 1; }
  log_.clear();
  m.process_event( E() );
  if ( log_ != "actB xB " ) { printf( "leaf source as its own action context: observed %s\n", log_.c_str() ); return 1; }
  return 0;
}
