// context<>() const yields a direct or indirect context, the state itself included (as the non-const form does), or a base
// class of it; of several contexts with that base class it is the innermost one.
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/event.hpp>
#include <cstdio>
#include <string>
namespace sc = boost::statechart;
struct Named { const char * name; explicit Named( const char * n ) : name( n ) {} };
struct Inner1 { int x; };
struct E : sc::event< E > {};
struct A; struct B; struct C;
struct M : sc::state_machine< M, A >, Named { M() : Named( "M" ) {} };
struct A : sc::simple_state< A, M, B >, Named { A() : Named( "A" ) {} };
static std::string log_;
struct B : sc::simple_state< B, A, C >, Inner1 {};
struct C : sc::simple_state< C, B >, Named
{
  C() : Named( "C" ) {}
  typedef sc::custom_reaction< E > reactions;
  sc::result react( const E & )
  {
    const C & c = *this;
    const B & b = context< B >();
    log_ += c.context< Named >().name; log_ += context< Named >().name; log_ += b.context< Named >().name; log_ += context< B >().context< Named >().name;
    log_ += c.context< A >().name; log_ += c.context< M >().name;
    log_ += &c.context< C >() == this && &context< C >() == this && &b.context< B >() == &b && &b.context< Inner1 >() == &b ? "+" : "-";
    return discard_event();
  }
};
int main()
{
  M m; m.initiate(); m.process_event( E() );
  if ( log_ != "CCAAAM+" ) { printf( "wrong contexts: %s\n", log_.c_str() ); return 1; }
  return 0;
}
