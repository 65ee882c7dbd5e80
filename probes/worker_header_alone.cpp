// The worker's header on its own is all a program that only needs a worker includes.
#include <boost/statechart/fifo_worker.hpp>
#include <cstdio>

static int n;
static void item() { ++n; }

int main()
{
  boost::statechart::fifo_worker<> w;
  w.queue_work_item( &item );
  w.queue_work_item( &item );
  unsigned long r = w();
  if ( r != 2 || n != 2 ) { printf( "executed %d, returned %lu\n", n, r ); return 1; }
  return 0;
}
