#undef SHARED
#include "identity.hpp"
namespace {
template< int I, int N > struct Make
{
  static const sc::event_base * event( int k ) { return k == 2 * I ? static_cast< const sc::event_base * >( new Ev< I > ) : k == 2 * I + 1 ? new EvP< I > : Make< I + 1, N >::event( k ); }
  static int states( const Machine & m ) { return ( m.state_downcast< const Leaf< I > * >() ? 1 << I : 0 ) | Make< I + 1, N >::states( m ); }
};
template< int N > struct Make< N, N > { static const sc::event_base * event( int ) { return 0; } static int states( const Machine & ) { return 0; } };
void eventIds( std::vector< EvId > & v ) { Ids< 0, 12 >::events( v ); }
void stateIds( std::vector< StId > & v ) { Ids< 0, 16 >::states( v ); }
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
void setCustom( const int * p ) { Ev< 5 >::custom_static_type_ptr( p ); }
const int * customOf( const sc::event_base & e ) { return e.custom_dynamic_type_ptr< int >(); }
#else
void setCustom( const int * ) {}
const int * customOf( const sc::event_base & ) { return 0; }
#endif
const sc::event_base * makeEvent( int k ) { return Make< 0, 12 >::event( k ); }
bool isType( const sc::event_base & e, int k ) { std::vector< EvId > v; eventIds( v ); return e.dynamic_type() == v[ k ]; }
int downcast( const Machine & m ) { return Make< 0, 16 >::states( m ); }
void process( Machine & m ) { m.process_event( Ev< 0 >() ); }
void destroy( const sc::event_base * e ) { boost::intrusive_ptr< const sc::event_base > p( e ); }
}
extern "C" __attribute__(( visibility( "default" ) )) const Other * otherTable()
{
  static const Other o = { eventIds, stateIds, setCustom, customOf, makeEvent, isType, downcast, process, destroy };
  return &o;
}
