// Runtime part of the chart harness: records everything the library calls
// back into user code with, and takes the user-side decisions (what a
// reaction returns, whether a callback throws or posts) from a seeded PRNG.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP

#include <boost/statechart/event.hpp>
#include <boost/statechart/event_base.hpp>
#include <boost/intrusive_ptr.hpp>
#include "trace.hpp"
#include "desc.hpp"
#include <cstdint>
#include <cstddef>
#include <vector>
#include <new>
#include <stdexcept>

namespace rt {

namespace sc = boost::statechart;
typedef boost::intrusive_ptr< const sc::event_base > EvPtr;

// ---------------------------------------------------------------- exceptions
// What user code throws. The number decides the form, so that the caller's side can tell whether it received the very
// exception or something made from it (a slice of it, say).
struct ExcA : std::runtime_error { int id; explicit ExcA( int i ) : std::runtime_error( "A" ), id( i ) {} };
struct ExcAD : ExcA { explicit ExcAD( int i ) : ExcA( i ) {} };    // ExcA: translated by every translator
struct ExcB : std::logic_error { int id; explicit ExcB( int i ) : std::logic_error( "B" ), id( i ) {} };
struct ExcBD : ExcB { explicit ExcBD( int i ) : ExcB( i ) {} };    // ExcB and int: not translated by the selective one

// -------------------------------------------------------------------- events
// Identity-carrying part of every event: uid names the logical event, iid the
// C++ object. Copies are logged.
struct EvCommon
{
  int cls; int uid; int iid; uint64_t pat;
  EvCommon( int cls, int uid );
  EvCommon( const EvCommon & o );
  virtual ~EvCommon();
  bool intact() const { return pat == ( 0x9e3779b97f4a7c15ull * ( uint64_t )( uid + 17 ) ^ ( uint64_t )cls ); }
  private: EvCommon & operator=( const EvCommon & );
};

// Tracking allocator for events and machines (see alloc.hpp)
template< class T > struct TrackAlloc;

struct E0 : sc::event< E0 >, EvCommon { explicit E0( int u ) : EvCommon( 0, u ) {} };
struct E1 : sc::event< E1 >, EvCommon { explicit E1( int u ) : EvCommon( 1, u ) {} };
struct E2 : EvCommon, sc::event< E2 > { char pad[ 40 ]; explicit E2( int u ) : EvCommon( 2, u ) {} };
struct E3 : sc::event< E3, TrackAlloc< int > >, EvCommon { explicit E3( int u ) : EvCommon( 3, u ) {} };
struct E4 : sc::event< E4 >, EvCommon { explicit E4( int u ) : EvCommon( 4, u ) {} };
// exception events
int freshUid();
struct EX : sc::event< EX >, EvCommon { EX() : EvCommon( 5, freshUid() ) {} };
struct EY : sc::event< EY >, EvCommon { int excId; explicit EY( int id ) : EvCommon( 6, freshUid() ), excId( id ) {} };
const int nNormalEv = 5;

// ------------------------------------------------------------ chart machine
struct Poster          // what user code may do from inside a callback
{
  virtual void post( const EvPtr & p ) = 0;
  virtual void postRef( const sc::event_base & e ) = 0;
  virtual void clearHist( int k ) = 0;
  // address yielded by context<T>() for ancestor number k (0 = itself for
  // states, last = machine); variant selects const / outermost_context form
  virtual const void * ctx( int k, int variant ) = 0;
  virtual const sc::event_base * trig() = 0;
  virtual void query() = 0;      // as IMachine::query(), asked through the state
};

struct IMachine
{
  int mid;
  bool alive;               // false while the most-derived part is destroyed
  virtual ~IMachine() {}
  virtual void initiate_() = 0;
  virtual void terminate_() = 0;
  virtual void process_( const sc::event_base & e ) = 0;
  virtual Poster & poster() = 0;
  virtual void query() = 0;      // emits Q* records
  virtual bool terminated_() const = 0;
};

struct ChartEntry
{
  const desc::Chart * d;
  IMachine * ( *make )();
};
void registerChart( const ChartEntry & );
std::vector< ChartEntry > & charts();
struct Reg { Reg( const desc::Chart * d, IMachine * ( *m )() ) { ChartEntry e = { d, m }; registerChart( e ); } };

// ----------------------------------------------------------- user callbacks
// Each returns normally or throws ExcA/ExcB as decided.
void enter( int state, const void * self, Poster * p );
void exit_( int state, const void * self, Poster * p );
void dtor( int state, const void * self, Poster * p );
void act( int ctxState, const void * self, const sc::event_base & e, Poster * p );
// returns the index of the chosen option of the state
int react( int state, const void * self, const sc::event_base & e, Poster * p );
void unconsumed( const sc::event_base & e, Poster * p );

void rec( int kind, int a, int b = 0, const void * p = 0, long q = 0 );

inline const void * mdAddr( const void * p ) { return p; }
template< class T > const void * dynAddr( const T * p ) { return p ? dynamic_cast< const void * >( p ) : 0; }

} // namespace rt
#endif
