From 279328e7d1164abe429302c3d152d0b4c30244fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 1/9] fix: pass every slot its own copy of by-value signal
 arguments

The slot iterator forwarded by-value arguments as rvalues, so the first slot
that takes such an argument by value moved it away and every later slot got a
moved-from object.
---
 signals.hpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..281e312 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,39 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // Passes a stored signal argument to one of the slots of the signal.
+        // An argument that is passed by value is copied since it must be passed 
+        // to every slot (types that cannot be copied are moved).
+        template<typename Arg>
+        struct slot_argument
+        {
+            using type = traits::conditional_t<std::is_copy_constructible<Arg>::value, const Arg&, Arg&&>;
+
+            static Arg pass(Arg& arg)
+            {
+                return static_cast<type>(arg);
+            }
+        };
+
+        // Arguments that are passed by reference are forwarded.
+        template<typename Arg>
+        struct slot_argument<Arg&>
+        {
+            static Arg& pass(Arg& arg)
+            {
+                return arg;
+            }
+        };
+
+        template<typename Arg>
+        struct slot_argument<Arg&&>
+        {
+            static Arg&& pass(Arg& arg)
+            {
+                return static_cast<Arg&&>(arg);
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1172,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_argument<Args>::pass(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1236,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_argument<Args>::pass(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From ded4942b41f507af058d90d119fc2770bd5c61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 2/9] fix: never remove another slot when a removed slot is
 disconnected

Slots removed with signal::disconnect() kept their connected state and their
stale index. While such a slot was kept alive by a running emission it was
still invoked, and disconnecting its connection removed whatever slot had taken
its place. The same happened if both raced in different threads.
---
 signals.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 281e312..2b3f88a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1844,7 +1844,8 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may have been removed already.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1868,6 +1869,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-- 
2.43.0


From 15ce84bfd7a9b40598145fb615915140e94ba562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 3/9] fix: destroy erased slots after the slot mutex is
 released

The function object of an erased slot was destroyed with the slot mutex locked,
which deadlocks if its destructor uses the signal (for example, if it owns a
scoped_connection).
---
 signals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 2b3f88a..c6bfaf0 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1859,6 +1859,7 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            list_type erased;        // Destroyed after the mutex is unlocked.
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
 
@@ -1869,6 +1870,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    erased.push_back(slots[i]);
                     s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
-- 
2.43.0


From 640106dc15fe23ce4f1382b3775a023e4a0bd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 4/9] fix: compare slots by the decayed type of their function
 object

The slot implementation types depended on the value category of the function
object (and object pointer) they were created with, so s.disconnect(&f) did not
find a slot connected with s.connect(f) or with a variable that holds &f.
---
 signals.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index c6bfaf0..95a2d6f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1294,7 +1294,7 @@ namespace sig
         // Slot that takes a function object.
         template<typename Func>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
         {}
 
@@ -1302,14 +1302,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func)), detail::traits::decay_t<Ptr>(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func)), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From ea34f03c7ec85c9f241854c669f40be3f78cabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 5/9] fix: copy slots without recursing or dereferencing an
 empty slot

Copying a non-const slot selected the function object constructor, which
recursed without end. Copying or connecting an empty slot dereferenced a null
pointer, and the copy assignment operator did not compile.
---
 signals.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 95a2d6f..c0acf34 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1292,7 +1292,8 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_same<detail::traits::remove_cvref_t<Func>, slot>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(detail::traits::decay_t<Func>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
@@ -1315,7 +1316,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1338,7 +1339,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
@@ -1721,6 +1722,8 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            if (!slot) return {};   // There is nothing to connect.
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From bd03662baccb13840cc08f1d86842504436f676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 6/9] fix: keep connections working when a signal is moved

Moving a signal left its slots pointing at the moved-from signal, whose slot
list was null, so disconnecting one of them (or using the moved-from signal)
dereferenced a null pointer. The move assignment operator returned no value.
---
 signals.hpp | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index c0acf34..2517ead 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1703,20 +1703,34 @@ namespace sig
         // Moveable.
         signal(signal&& other) noexcept
             : m_Blocked(other.m_Blocked.load())
+            , m_Slots(new list_type())
         {
             lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            std::swap(m_Slots, other.m_Slots);
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // The previous slots of this signal are destroyed after the 
+                // mutexes are unlocked.
+                cow_type slots(new list_type());
+
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                disconnect_slots();
+                std::swap(slots, m_Slots);
+                std::swap(m_Slots, other.m_Slots);
+                adopt_slots();
+                m_Blocked = other.m_Blocked.load();
+            }
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1888,6 +1902,27 @@ namespace sig
             return count;
         }
 
+        // Disconnect all slots (without removing them).
+        // The slot mutex must be locked.
+        void disconnect_slots()
+        {
+            const cow_type& slots = m_Slots;
+            for (auto& s : slots.read())
+            {
+                s->state().disconnect();
+            }
+        }
+
+        // Make this signal the owner of its slots.
+        void adopt_slots()
+        {
+            const cow_type& slots = m_Slots;
+            for (auto& s : slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         void clear()
         {
             lock_type lock(m_SlotMutex);
-- 
2.43.0


From 42b443b683c17d2ee94246502eda9cc3d349618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 7/9] fix: disconnect the slots of a signal that is destroyed

If a slot outlives its signal (because a slot destroys the signal during an
emission, or while the slots of the signal are being destroyed), its connection
used the destroyed signal when it was disconnected.
---
 signals.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 2517ead..758dee0 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1693,7 +1693,12 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            // Slots may outlive the signal (during an emission).
+            lock_type lock(m_SlotMutex);
+            disconnect_slots();
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
-- 
2.43.0


From c279f8c329dca795449ea117697de7e5a0d3abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 8/9] fix: synchronize with released snapshots before writing
 to an unshared list

use_count() is a relaxed load. Without an acquire fence, writing to the list
after seeing a count of 1 races with the last reads of an emission in another
thread that released its snapshot of the list.
---
 signals.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 758dee0..ed702f7 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -652,6 +652,12 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // Reading the use count does not synchronize with the threads 
+                    // that released their copies.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From 066aac269d8b6cec482904806faffaeabff8d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 9/9] fix: do not terminate when a copy-on-write pointer cannot
 allocate its reference count

cow_ptr(T*) and operator=(T*) hand the value to a shared_ptr, which allocates
and may throw std::bad_alloc, but were declared noexcept: running out of memory
while a list of slots is copied for writing (connect or disconnect during an
emission) terminated the program instead of reaching the caller.
---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ed702f7..b50d50a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +549,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0

