// Trace records shared by the runtime and the checker.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <cstdint>
namespace trace {
enum Kind {
  K_NONE = 0,
  // main sequence, produced by library-initiated calls into user code
  K_ENTER,    // a=state b=trigIid p=this          (followed by user actions and K_END)
  K_EXIT,     // a=state b=trigIid p=this          (")
  K_DTOR,     // a=state p=this                    (followed by K_CTX.. and K_END)
  K_ACT,      // a=ctx state (-1 machine) b=trigIid p=this q=iid of event  (")
  K_REACT,    // a=state b=trigIid p=this q=iid of event                   (")
  K_UNCONS,   // a=-1 b=trigIid p=machine q=iid                            (")
  K_END,      // a=outcome (0 normal, 1 throw A, 2 throw B) b=exception id, or for REACT q=option index
  // harness side
  K_API,      // a=op b=uid q=iid    beginning of an API call
  K_APIEND,   // a=outcome (0 returned, 1 ExcA, 2 ExcB, 3 bad_alloc, 4 other) b=exception id
  K_POST,     // a=mode(0 ref,1 ptr) b=uid q=iid  inside callbacks / outside
  K_CLEARH,   // a=history slot index
  K_CTX,      // a=k (ancestor number) b=variant p=address
  K_MDESTROY, // machine destructor begins
  K_MDESTROYED,
  K_MCREATE,  // p=machine address
  // queries (a stable machine)
  K_QBEGIN,   // a=terminated() b=begin==end
  K_QLEAF,    // a=state by dynamic type(-1 unknown) b=depth in chain(0 leaf) p=address
  K_QDOWN,    // a=state b=form p=address or 0
  K_QCAST,    // a=state b=form p=address
  K_QIFC,     // a=interface p=address b=form
  K_QTRIG,    // b=iid
  K_QEND,
  // side records (may appear anywhere)
  K_EVNEW,    // a=cls b=uid q=iid
  K_EVCOPY,   // a=cls b=src iid q=iid
  K_EVDTOR,   // b=uid q=iid a=intact
  K_ALLOCFAIL,
  K_NOTE
};
struct Rec { uint8_t kind; uint8_t mid; int16_t a; int32_t b; const void * p; int64_t q; };
enum Op { OP_INITIATE = 0, OP_TERMINATE, OP_PROCESS, OP_POST, OP_QUERY, OP_CLEARH };
const char * kindName( int k );
struct Buf { volatile uint64_t n; uint64_t cap; volatile uint64_t episode; volatile uint64_t progress; Rec r[ 1 ]; };
}
#endif
