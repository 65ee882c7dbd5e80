// Demonstrates: initiate() on a running machine whose termination fails but
// is handled. Correct: exactly one outermost state afterwards.
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/event.hpp>
#include <boost/statechart/exception_translator.hpp>
#include <cstdio>
#include <memory>
namespace sc = boost::statechart;
struct S; struct T; struct A; struct B;
static int alive = 0;
struct M : sc::state_machine< M, S, std::allocator< sc::none >, sc::exception_translator<> > {};
struct Go : sc::event< Go > {};
struct S : sc::simple_state< S, M, A >
{
  S() { ++alive; } ~S() { --alive; }
  typedef sc::transition< sc::exception_thrown, T > reactions;
};
struct A : sc::simple_state< A, S > { void exit() { throw 1; } };
struct T : sc::simple_state< T, M > { T() { ++alive; } ~T() { --alive; } };
int main()
{
  {
    M m;
    m.initiate();
    m.initiate();   // A::exit() throws, S handles the exception with a transition to T
    int leaves = 0;
    for ( M::state_iterator i = m.state_begin(); i != m.state_end(); ++i ) ++leaves;
    printf( "outermost states alive: %d, innermost states: %d\n", alive, leaves );
    if ( alive != 1 || leaves != 1 ) return 1;
  }
  return alive != 0;
}
