From 5c4513964f6fd67787f060656fb38d5730dbda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 1/5] fix: initiate() starts from scratch even if termination
 failed and the failure was handled

If an exit() function throws while initiate() terminates the previous run and
an exception event reaction handles the exception, then the machine is still
running (transition) or still has posted events, deferred events and history
(termination). Entering the initial state on top of that left two outermost
states active, one of which was never destructed, or let events and history
of the previous run leak into the new one.
---
 include/boost/statechart/state_machine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..149da1b 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -244,6 +244,10 @@ class state_machine : noncopyable
     void initiate()
     {
       terminate();
+      // If a failure to terminate was handled by an exception event reaction
+      // then the machine may still be running and there may be remaining
+      // events and history information.
+      terminate_impl( false );
 
       {
         terminator guard( *this, 0 );
-- 
2.43.0


From 8081c0325363f09a429740d9f01d27213159b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 2/5] fix: do not register a processor whose constructor throws

The holder was inserted into the set of processors before the processor was
constructed. If the constructor threw, then the handle stayed valid although
it refers to no processor, and initiating, queueing events for or terminating
it dereferenced a null pointer.
---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From f81c3eb365a9f9cc6ae23476b1c67fa77676da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 3/5] fix: let the transition source be the transition context
 in relaxed mode

---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..2878e38 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -768,7 +768,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext = &context< real_transition_context_type >();
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From a4ac51d5f1b5d1a998a5f9084ab42b12e14de815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 4/5] fix: make simple_state::context() const usable for the
 state itself and its base classes

The const overload selects context_impl_this_context when OtherContext is the
state itself or one of its base classes, but that only accepted non-const
states, so every such call failed to compile.
---
 include/boost/statechart/simple_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 2878e38..d96c577 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -692,6 +692,12 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       {
         return *polymorphic_downcast< MostDerived * >( &stt );
       }
+
+      template< class OtherContext, class State >
+      static const OtherContext & context_impl( const State & stt )
+      {
+        return *polymorphic_downcast< const MostDerived * >( &stt );
+      }
     };
     friend struct context_impl_this_context;
 
-- 
2.43.0


From aa0c4b096f9a84f2255d90d915607c8576081084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 5/5] fix: include the header that declares 'none' in the
 worker, scheduler and container headers

fifo_worker.hpp, fifo_scheduler.hpp and processor_container.hpp did not compile unless a
header including detail/memory.hpp had been included before them.
---
 include/boost/statechart/fifo_scheduler.hpp      | 1 +
 include/boost/statechart/fifo_worker.hpp         | 2 ++
 include/boost/statechart/processor_container.hpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/boost/statechart/fifo_scheduler.hpp b/include/boost/statechart/fifo_scheduler.hpp
index bbb6a51..3163871 100644
--- a/include/boost/statechart/fifo_scheduler.hpp
+++ b/include/boost/statechart/fifo_scheduler.hpp
@@ -11,6 +11,7 @@
 #include <boost/statechart/event_base.hpp>
 #include <boost/statechart/fifo_worker.hpp>
 #include <boost/statechart/processor_container.hpp>
+#include <boost/statechart/detail/memory.hpp> // none
 
 #include <boost/intrusive_ptr.hpp>
 #include <boost/noncopyable.hpp>
diff --git a/include/boost/statechart/fifo_worker.hpp b/include/boost/statechart/fifo_worker.hpp
index 75d3ad6..ce128e6 100644
--- a/include/boost/statechart/fifo_worker.hpp
+++ b/include/boost/statechart/fifo_worker.hpp
@@ -8,6 +8,8 @@
 
 
 
+#include <boost/statechart/detail/memory.hpp> // none
+
 #include <boost/assert.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/function/function0.hpp>
diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index 27ef3b4..fbd0a3a 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -10,6 +10,7 @@
 
 #include <boost/statechart/event_base.hpp>
 #include <boost/statechart/event_processor.hpp>
+#include <boost/statechart/detail/memory.hpp> // none
 
 #include <boost/assert.hpp>
 #include <boost/ref.hpp>
-- 
2.43.0

