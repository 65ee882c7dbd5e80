// Demonstrates: the constructor of a processor throws; the exception leaves
// operator() as documented, but operations on the handle that are already
// queued then use a processor that does not exist. Correct: they have no effect.
#include <boost/statechart/detail/memory.hpp>
#include <boost/statechart/fifo_scheduler.hpp>
#include <boost/statechart/event_processor.hpp>
#include <boost/statechart/event.hpp>
#include <boost/intrusive_ptr.hpp>
#include <cstdio>
namespace sc = boost::statechart;
struct E : sc::event< E > {};
struct P : sc::event_processor< sc::fifo_scheduler<> >
{
  P( my_context c ) : sc::event_processor< sc::fifo_scheduler<> >( c ) { throw 1; }
  void initiate_impl() {}
  void process_event_impl( const sc::event_base & ) {}
  void terminate_impl() {}
};
int main()
{
  sc::fifo_scheduler<> s;
  sc::fifo_scheduler<>::processor_handle h = s.create_processor< P >();
  s.initiate_processor( h );
  s.queue_event( h, boost::intrusive_ptr< const sc::event_base >( new E ) );
  s.terminate_processor( h );
  s.destroy_processor( h );
  try { s(); } catch ( int ) { printf( "constructor threw\n" ); }
  printf( "remaining items executed: %lu\n", s() );
  return 0;
}
