#ifndef IDENTITY_HPP
#define IDENTITY_HPP
#include <boost/statechart/event.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/mpl/list.hpp>
#include <vector>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
struct Pad { virtual ~Pad() {} int x; };
template< class T > struct Al : std::allocator< T > { template< class U > struct rebind { typedef Al< U > other; }; Al() {} template< class U > Al( const Al< U > & ) {} };
template< int I, bool P > struct EvImpl;
template< int I > struct Ev : sc::event< Ev< I > > {};
template< int I > struct EvP : Pad, sc::event< EvP< I >, Al< int > > {};
struct Machine;
template< int I > struct Leaf;
template< int I > struct Reg;
typedef mpl::list< Reg< 0 >, Reg< 1 >, Reg< 2 >, Reg< 3 > > Regs;
struct Top;
struct Machine : sc::state_machine< Machine, Top > {};
struct Top : sc::simple_state< Top, Machine, Regs > {};
template< int I > struct Reg : sc::simple_state< Reg< I >, Top::orthogonal< I >, mpl::list< Leaf< I * 4 > > > {};
template< int I > struct Leaf : sc::state< Leaf< I >, Reg< I / 4 > >
{
  typedef sc::state< Leaf< I >, Reg< I / 4 > > base;
  typedef mpl::list< sc::transition< Ev< 0 >, Leaf< I % 4 == 3 ? I - 3 : I + 1 > > > reactions;
  Leaf( typename base::my_context c ) : base( c ) {}
};
typedef sc::event_base::id_type EvId;
typedef Machine::state_base_type::id_type StId;
template< int I, int N > struct Ids
{
  static void events( std::vector< EvId > & v ) { v.push_back( Ev< I >::static_type() ); v.push_back( EvP< I >::static_type() ); Ids< I + 1, N >::events( v ); }
  static void states( std::vector< StId > & v ) { v.push_back( Leaf< I >::static_type() ); Ids< I + 1, N >::states( v ); }
};
template< int N > struct Ids< N, N > { static void events( std::vector< EvId > & ) {} static void states( std::vector< StId > & ) {} };
// the same types seen from the other translation unit, which is linked in or
// is a shared library (with its own copies of every type_info)
struct Other
{
  void ( *eventIds )( std::vector< EvId > & );
  void ( *stateIds )( std::vector< StId > & );
  void ( *setCustom )( const int * );
  const int * ( *customOf )( const sc::event_base & );
  const sc::event_base * ( *makeEvent )( int ); // in the order of eventIds
  bool ( *isType )( const sc::event_base &, int );
  int ( *downcast )( const Machine & ); // set of active leaf states
  void ( *process )( Machine & );
  void ( *destroy )( const sc::event_base * );
};
#ifdef SHARED
const Other * other();
#else
extern "C" const Other * otherTable();
#endif
#endif
