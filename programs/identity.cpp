// C17: type identity over all pairs of many event and state types, across
// translation units, and custom type identifiers.
#include "identity.hpp"
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <random>
#include <cstdlib>
#ifdef SHARED
#include <dlfcn.h>
#include <string>
const Other * other()
{
  char exe[ 4096 ]; const char * e = getenv( "IDENTITY_SO" );
  snprintf( exe, sizeof exe, "%s", e ? e : "" );
  void * h = dlopen( exe, RTLD_NOW | RTLD_LOCAL );
  typedef const Other * Get();
  Get * g = h ? reinterpret_cast< Get * >( dlsym( h, "otherTable" ) ) : 0;
  if ( !g ) { printf( "NOLIB %s\n", dlerror() ); exit( 3 ); }
  return g();
}
#endif
static long checks = 0;
static int bad = 0;
#define CHECK( c, ... ) do { ++checks; if ( !( c ) ) { if ( ++bad <= 10 ) { printf( "BAD " ); printf( __VA_ARGS__ ); printf( "\n" ); } } } while ( 0 )
template< class Id > void relations( const char * what, std::vector< Id > & a, std::vector< Id > & b )
{
  for ( size_t i = 0; i < a.size(); ++i )
    for ( size_t j = 0; j < b.size(); ++j )
    {
      bool eq = a[ i ] == b[ j ], ne = a[ i ] != b[ j ];
      CHECK( eq == ( i == j ), "%s types %zu and %zu: == is %d", what, i, j, eq );
      CHECK( ne == !eq, "%s types %zu and %zu: != and == agree", what, i, j );
      std::less< Id > lt;
      bool l = lt( a[ i ], b[ j ] ), g = lt( b[ j ], a[ i ] );
      CHECK( l + g + eq == 1, "%s types %zu and %zu: order is not total (less %d greater %d equal %d)", what, i, j, l, g, eq );
      CHECK( ( a[ i ] < b[ j ] ) == l && ( a[ i ] > b[ j ] ) == g && ( a[ i ] <= b[ j ] ) == !g && ( a[ i ] >= b[ j ] ) == !l, "%s types %zu and %zu: relational operators disagree", what, i, j );
      for ( size_t k = 0; k < a.size(); ++k ) if ( lt( a[ i ], b[ j ] ) && lt( b[ j ], a[ k ] ) ) CHECK( lt( a[ i ], a[ k ] ), "%s types %zu %zu %zu: order is not transitive", what, i, j, k );
    }
}
template< int I, int N > struct Objs
{
  static void events( std::vector< const sc::event_base * > & v ) { v.push_back( new Ev< I > ); v.push_back( new EvP< I > ); Objs< I + 1, N >::events( v ); }
};
template< int N > struct Objs< N, N > { static void events( std::vector< const sc::event_base * > & ) {} };
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
static int ints[ 40 ]; static char chars[ 40 ];
template< int I > struct Custom
{
  static void setE( unsigned m ) { if ( m >> I & 1 ) { Ev< I >::custom_static_type_ptr( &ints[ I ] ); } if ( m >> ( I + 1 ) & 1 ) EvP< I >::custom_static_type_ptr( &chars[ I ] ); Custom< I - 1 >::setE( m ); }
  static void clearE() { Ev< I >::custom_static_type_ptr( ( const int * )0 ); EvP< I >::custom_static_type_ptr( ( const char * )0 ); Custom< I - 1 >::clearE(); }
  static void checkE( unsigned m )
  {
    Ev< I > e; EvP< I > p; const sc::event_base & b = e, & c = p;
    CHECK( b.custom_dynamic_type_ptr< int >() == ( m >> I & 1 ? &ints[ I ] : 0 ), "custom id of Ev<%d> (object)", I );
    CHECK( Ev< I >::template custom_static_type_ptr< int >() == ( m >> I & 1 ? &ints[ I ] : 0 ), "custom id of Ev<%d> (type)", I );
    CHECK( c.custom_dynamic_type_ptr< char >() == ( m >> ( I + 1 ) & 1 ? &chars[ I ] : 0 ), "custom id of EvP<%d>", I );
    Custom< I - 1 >::checkE( m );
  }
  static void setS( unsigned m ) { if ( m >> I & 1 ) Leaf< I >::custom_static_type_ptr( &ints[ 20 + I ] ); else Leaf< I >::custom_static_type_ptr( ( const int * )0 ); Custom< I - 1 >::setS( m ); }
  static const void * of( int i ) { return i == I ? ( const void * )Leaf< I >::template custom_static_type_ptr< int >() : Custom< I - 1 >::of( i ); }
};
template<> struct Custom< -1 > { static void setE( unsigned ) {} static void clearE() {} static void checkE( unsigned ) {} static void setS( unsigned ) {} static const void * of( int ) { return 0; } };
#endif
int main( int argc, char ** argv )
{
  std::mt19937 rng( argc > 1 ? atoi( argv[ 1 ] ) : 1 );
  int rounds = argc > 2 ? atoi( argv[ 2 ] ) : 200;
  std::vector< EvId > e; Ids< 0, 12 >::events( e );
#ifdef SHARED
  const Other & ot = *other();
#else
  const Other & ot = *otherTable();
#endif
  std::vector< EvId > e2; ot.eventIds( e2 );
  std::vector< StId > s; Ids< 0, 16 >::states( s );
  std::vector< StId > s2; ot.stateIds( s2 );
  relations( "event", e, e ); relations( "event (two translation units)", e, e2 );
  relations( "state", s, s ); relations( "state (two translation units)", s, s2 );
  std::vector< const sc::event_base * > o; Objs< 0, 12 >::events( o );
  for ( size_t i = 0; i < o.size(); ++i )
    for ( size_t j = 0; j < e.size(); ++j )
    {
      CHECK( ( o[ i ]->dynamic_type() == e[ j ] ) == ( i == j ), "event object %zu, type %zu", i, j );
      CHECK( ( o[ i ]->intrusive_from_this()->dynamic_type() == e2[ j ] ) == ( i == j ), "event object copy %zu, type %zu", i, j );
    }
  for ( size_t i = 0; i < e.size(); ++i )
  {
    const sc::event_base * x = ot.makeEvent( int( i ) );
    for ( size_t j = 0; j < e.size(); ++j )
    {
      CHECK( ( x->dynamic_type() == e[ j ] ) == ( i == j ), "event object %zu made in the other unit, type %zu", i, j );
      CHECK( ot.isType( *o[ i ], int( j ) ) == ( i == j ), "event object %zu, type %zu in the other unit", i, j );
    }
    ot.destroy( x );
  }
  std::set< EvId, std::less< EvId > > all( e.begin(), e.end() );
  CHECK( all.size() == e.size(), "std::set of event ids holds %zu of %zu", all.size(), e.size() );
  Machine m; m.initiate();
  long transitions = 0;
  std::vector< int > at( 4, 0 );
  for ( int r = 0; r < rounds; ++r )
  {
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
    unsigned mask = rng();
    Custom< 11 >::clearE(); Custom< 11 >::setE( mask ); Custom< 11 >::checkE( mask );
    unsigned sm = rng();
    Custom< 15 >::setS( sm );
#endif
    int seen = 0;
    for ( Machine::state_iterator it = m.state_begin(); it != m.state_end(); ++it )
    {
      int which = -1;
      for ( int k = 0; k < 16; ++k ) if ( it->dynamic_type() == s[ k ] ) { CHECK( which < 0, "state object has two types" ); which = k; }
      CHECK( which >= 0 && which % 4 == at[ which / 4 ], "state object of unknown or wrong type (%d)", which );
      if ( which >= 0 ) seen |= 1 << which / 4;
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
      if ( which >= 0 ) CHECK( it->custom_dynamic_type_ptr< int >() == ( sm >> which & 1 ? &ints[ 20 + which ] : 0 ) && Custom< 15 >::of( which ) == ( sm >> which & 1 ? &ints[ 20 + which ] : 0 ), "custom id of state %d", which );
#endif
      CHECK( it->outer_state_ptr()->outer_state_ptr()->dynamic_type() == Top::static_type(), "outermost state's type" );
    }
    CHECK( seen == 15, "not every region has a state" );
    // Ev<0> is consumed by exactly one region
    std::vector< StId > before; for ( Machine::state_iterator it = m.state_begin(); it != m.state_end(); ++it ) before.push_back( it->dynamic_type() );
    if ( r % 3 == 0 ) ot.process( m );
    else if ( r % 3 == 1 ) m.process_event( *boost::intrusive_ptr< const sc::event_base >( ot.makeEvent( 0 ) ) );
    else m.process_event( Ev< 0 >() );
    ++transitions;
    std::vector< int > now( 4, -1 );
    for ( Machine::state_iterator it = m.state_begin(); it != m.state_end(); ++it ) for ( int k = 0; k < 16; ++k ) if ( it->dynamic_type() == s[ k ] ) now[ k / 4 ] = k % 4;
    int changed = 0;
    for ( int k = 0; k < 4; ++k ) if ( now[ k ] != at[ k ] ) { ++changed; CHECK( now[ k ] == ( at[ k ] + 1 ) % 4, "region %d moved from %d to %d", k, at[ k ], now[ k ] ); }
    CHECK( changed == 1, "%d regions reacted", changed );
    at = now;
    int want = 0; for ( int k = 0; k < 4; ++k ) want |= 1 << ( 4 * k + at[ k ] );
    CHECK( ot.downcast( m ) == want, "state_downcast in the other unit finds %x, active %x", ot.downcast( m ), want );
  }
#ifndef BOOST_STATECHART_USE_NATIVE_RTTI
  static int z = 5; ot.setCustom( &z ); Ev< 5 > five;
  CHECK( Ev< 5 >::custom_static_type_ptr< int >() == &z && ot.customOf( five ) == &z && five.custom_dynamic_type_ptr< int >() == &z, "custom id set in another translation unit" );
#endif
  for ( size_t k = 0; k < o.size(); ++k ) boost::intrusive_ptr< const sc::event_base > p( o[ k ] );
  printf( "%s %ld %ld\n", bad ? "FAILED" : "OK", checks, transitions );
  return bad ? 1 : 0;
}
