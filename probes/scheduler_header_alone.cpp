// The scheduler's header on its own is all a program with processors of its
// own needs.
#include <boost/statechart/fifo_scheduler.hpp>
#include <cstdio>

static int n;
static void item() { ++n; }

int main()
{
  boost::statechart::fifo_scheduler<> s;
  s.queue_work_item( &item );
  unsigned long r = s();
  if ( r != 1 || n != 1 ) { printf( "executed %d, returned %lu\n", n, r ); return 1; }
  return 0;
}
