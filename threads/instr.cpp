// ThreadSanitizer does not see the accesses made inside libstdc++.so, where
// the linking of std::list and std::set nodes lives. These definitions take
// their place and make the accesses visible.
#include <dlfcn.h>
#include <list>
#include <set>
extern "C" void __tsan_write8( void * );
extern "C" void __tsan_read8( void * );
namespace std {
namespace __detail {
void _List_node_base::_M_hook( _List_node_base * const p ) noexcept
{
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _List_node_base * n = _M_next, * p = _M_prev; p->_M_next = n; n->_M_prev = p;
}
void _List_node_base::_M_transfer( _List_node_base * const f, _List_node_base * const l ) noexcept
{
  if ( this == l ) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
  _List_node_base * t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap( _List_node_base & x, _List_node_base & y ) noexcept
{
  if ( x._M_next != &x )
  {
    if ( y._M_next != &y )
    {
      std::swap( x._M_next, y._M_next ); std::swap( x._M_prev, y._M_prev );
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    }
    else
    {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  }
  else if ( y._M_next != &y )
  {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
} // namespace __detail
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h ) noexcept
{
  typedef void ( *F )( bool, _Rb_tree_node_base *, _Rb_tree_node_base *, _Rb_tree_node_base & );
  static F f = ( F )dlsym( RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_" );
  __tsan_write8( &h._M_parent ); __tsan_write8( &h._M_left ); __tsan_write8( &h._M_right );
  f( left, x, p, h );
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase( _Rb_tree_node_base * const z, _Rb_tree_node_base & h ) noexcept
{
  typedef _Rb_tree_node_base * ( *F )( _Rb_tree_node_base *, _Rb_tree_node_base & );
  static F f = ( F )dlsym( RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_" );
  __tsan_write8( &h._M_parent ); __tsan_write8( &h._M_left ); __tsan_write8( &h._M_right );
  return f( z, h );
}
} // namespace std
