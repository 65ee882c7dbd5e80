// Instrumented allocator: every block remembers its element type and count;
// live blocks are tracked, the n-th allocation can be made to fail.
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include <cstddef>
#include <typeinfo>
#include <new>
#include <limits>
namespace rt {
void * trackAlloc( std::size_t n, std::size_t size, const std::type_info & ti );
void trackFree( void * p, std::size_t n, std::size_t size, const std::type_info & ti );
struct AllocStats { long live, allocs, errors; long failAt; long failed; const char * lastError; };
AllocStats & allocStats();

template< class T > struct TrackAlloc
{
  typedef T value_type; typedef T * pointer; typedef const T * const_pointer;
  typedef T & reference; typedef const T & const_reference;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  template< class U > struct rebind { typedef TrackAlloc< U > other; };
  TrackAlloc() {}
  template< class U > TrackAlloc( const TrackAlloc< U > & ) {}
  T * allocate( std::size_t n ) { return static_cast< T * >( trackAlloc( n, sizeof( T ), typeid( T ) ) ); }
  T * allocate( std::size_t n, const void * ) { return allocate( n ); }
  void deallocate( T * p, std::size_t n ) { trackFree( p, n, sizeof( T ), typeid( T ) ); }
  size_type max_size() const { return std::numeric_limits< std::size_t >::max() / sizeof( T ); }
  bool operator==( const TrackAlloc & ) const { return true; }
  bool operator!=( const TrackAlloc & ) const { return false; }
};
// element type void appears when the library rebinds from none
}
#endif
