From 6f53853ba21a0c9599c9b3d32d954676c35078b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 01/37] fix: vector_set does not leak nodes when an element
 throws and survives self-assignment

---
 Awl/VectorSet.h | 66 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..90c6b51 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -166,25 +166,21 @@ namespace awl
 
         using NodeAllocator = typename std::allocator_traits<Allocator>::template rebind_alloc<Node>;
 
-        Node * CreateNode(const T & val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
-        }
-
-        Node * CreateNode(T && val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
-        }
-
         template <class... Args>
         Node * CreateNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
@@ -194,6 +190,19 @@ namespace awl
             m_nodeAlloc.deallocate(node, 1);
         }
 
+        //Destroys a node that is not inserted yet.
+        struct NodeDeleter
+        {
+            void operator()(Node * node) const
+            {
+                set->DestroyNode(node);
+            }
+
+            vector_set * set;
+        };
+
+        using NodePtr = std::unique_ptr<Node, NodeDeleter>;
+
         using List = quick_list<Node>;
 
     public:
@@ -228,7 +237,8 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        //It delegates to another constructor, so the destructor is called if copying an element throws.
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -239,7 +249,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -277,10 +287,14 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
+
             return *this;
         }
 
@@ -354,15 +368,14 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            NodePtr val_node(CreateNode(std::forward<Args>(args) ...), NodeDeleter{ this });
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
             if (!exists)
             {
+                InsertNode(val_node.get(), parent);
                 node = val_node.release();
-                InsertNode(node, parent);
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
@@ -758,8 +771,9 @@ namespace awl
 
             if (!exists)
             {
-                node = CreateNode(std::forward<V>(val));
-                InsertNode(node, parent);
+                NodePtr val_node(CreateNode(std::forward<V>(val)), NodeDeleter{ this });
+                InsertNode(val_node.get(), parent);
+                node = val_node.release();
             }
 
             return std::make_pair(iterator(typename List::iterator(node)), !exists);
-- 
2.43.0


From cefea3351a6ee9beef7a3bc7a2762445d0e76fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 02/37] fix: ring::at(size()) throws out_of_range

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From cc033f42bfb51e30fa1b1020e8a741b700f69c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 03/37] fix: ring stays consistent when a pushed value is its
 own element or its constructor throws

---
 Awl/Ring.h | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..2613e60 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -290,22 +290,22 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            emplace_prev(val);
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            emplace_prev(std::move(val));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            emplace_next(val);
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            emplace_next(std::move(val));
         }
 
         void pop_front()
@@ -495,42 +495,46 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
+        //The state is not changed until the element is constructed.
+        template <class V>
+        void emplace_next(V && val)
         {
-            T * const p_write = data_end();
-
             if (full())
             {
-                assert(m_data == p_write);
+                //The value can be an element of this ring, so it should be copied before the oldest one is destroyed.
+                T tmp(std::forward<V>(val));
 
-                m_data->~T();
+                pop_front();
 
-                m_data = next(m_data);
+                new (data_end()) T(std::move(tmp));
             }
             else
             {
-                ++m_size;
+                new (data_end()) T(std::forward<V>(val));
             }
 
-            return p_write;
+            ++m_size;
         }
 
-        T * allocate_prev()
+        template <class V>
+        void emplace_prev(V && val)
         {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
-
-            if (saved_full)
+            if (full())
             {
-                m_data->~T();
+                T tmp(std::forward<V>(val));
+
+                pop_back();
+
+                new (prev(m_data)) T(std::move(tmp));
             }
             else
             {
-                ++m_size;
+                new (prev(m_data)) T(std::forward<V>(val));
             }
 
-            return m_data;
+            m_data = prev(m_data);
+
+            ++m_size;
         }
 
         void free()
-- 
2.43.0


From 944bb825342119534212c9b0a2cd40bc5706507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 04/37] fix: default-constructed, moved-from and copied ring
 has a defined state and its own allocator

---
 Awl/Ring.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 2613e60..5cd2a85 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -188,12 +188,13 @@ namespace awl
             assert(cap != 0);
         }
 
-        ring(const ring & other)
+        //It delegates to another constructor, so the destructor is called if copying an element throws.
+        ring(const ring & other) : ring(other.m_alloc)
         {
             copy(other);
         }
 
-        ring(ring && other) noexcept
+        ring(ring && other) noexcept : ring(other.m_alloc)
         {
             attach(other);
 
@@ -271,8 +272,6 @@ namespace awl
 
         void clear()
         {
-            assert(m_buf != nullptr);
-
             while(!empty())
             {
                 pop_front();
@@ -545,17 +544,21 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
         {
+            m_alloc = other.m_alloc;
             m_capacity = other.m_capacity;
             m_buf = other.m_buf;
 
@@ -565,8 +568,13 @@ namespace awl
 
         void copy(const ring & other)
         {
+            if (other.m_buf == nullptr)
+            {
+                return;
+            }
+
+            m_buf = m_alloc.allocate(other.m_capacity);
             m_capacity = other.m_capacity;
-            m_buf = m_alloc.allocate(m_capacity);
 
             m_data = m_buf;
             m_size = 0;
@@ -580,10 +588,10 @@ namespace awl
         Allocator m_alloc;
 
         T * m_buf;
-        std::size_t m_capacity;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From c128495eeb44a65927421a4a069a590b8eebf3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 05/37] fix: observable_set::emplace constructs from any
 arguments and migrating from an empty set announces nothing

---
 Awl/ObservableSet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 830b003..da593f5 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -94,7 +94,11 @@ namespace awl
         {
             clear();
 
-            other.NotifyClearing();
+            if (!other.m_set.empty())
+            {
+                other.NotifyClearing();
+            }
+
             m_set = std::move(other.m_set);
             other.m_set.clear();
 
@@ -157,7 +161,7 @@ namespace awl
         template <class... Args>
         std::pair<iterator, bool> emplace(Args&&... args)
         {
-            const std::pair<iterator, bool> result = m_set.insert(std::forward<Args>(args) ...);
+            const std::pair<iterator, bool> result = m_set.emplace(std::forward<Args>(args) ...);
             NotifyAdded(result);
             return result;
         }
-- 
2.43.0


From 195f2cef31111f0e7d38423d97c9fe3cfd964fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 06/37] fix: object_pool finalizes an object before it can be
 handed out again

---
 Awl/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..4cd6524 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,9 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
+                //The object can't be handed out again (from within Finalize()) until it is finalized.
                 p->Finalize();
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From 004a0434b4d21d1cfc3915c5e18a6ce25d6afcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 07/37] fix: UpdateQueue::Push does not leak its block when
 copying the function throws

---
 Awl/UpdateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..96f2d84 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -73,11 +73,11 @@ namespace awl
             }
             else
             {
+                //if copying the function throws, the block remains in the free list
+                freeBlocks.front()->Func = func;
                 p_message = freeBlocks.pop_front();
             }
 
-            p_message->Func = func;
-
             pendingMessages.push_back(p_message);
         }
 
-- 
2.43.0


From 2d43445210bdff20ac830226d0555f7ad2a1ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 08/37] fix: sleep_for does not lose a stop requested between
 its check and its wait

---
 Awl/Sleep.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..e1a1f4c 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,18 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                //A notification sent between checking the predicate and blocking would be lost without the lock.
+                std::lock_guard<std::mutex> callback_lock{ mutex };
+
                 cv.notify_one();
             }
         };
 
+        //It is locked after the callback is registered, because the callback can be called by the constructor of stop_callback.
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From 3e34c550df75df75da1c8340e02b254536e1823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 09/37] fix: watch_dog starts its thread after its members are
 constructed and joins it before they are destroyed

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..7fbd2a3 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
-            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
+            m_log(log),
             m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
-        std::jthread m_thread;
+        std::function<void()> m_log;
 
         std::stop_callback<std::function<void()>> m_callback;
 
-        std::function<void()> m_log;
+        //The thread uses the other members, so it is started last and joined first.
+        std::jthread m_thread;
     };
 }
-- 
2.43.0


From 05ae0c1562dccf8bd7d7b987f2df6a5c90086b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 10/37] fix: stop_token does not free its state while other
 tokens refer to it

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..7f695e2 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,7 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From b4864267b7195904a39a3ebd02782dd0dda28e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 11/37] fix: HashInputStream reports a short reading stream as
 corrupt and uses an unverified block after an exception

---
 Awl/Io/HashStream.h | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..29997e8 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -50,12 +50,29 @@ namespace awl
             }
             
             void PeekBuf()
+            {
+                try
+                {
+                    PeekBlock();
+                }
+                catch (...)
+                {
+                    // The content of the block is not verified, so it should not be returned by the next read.
+                    m_block.clear();
+
+                    m_i = m_block.end();
+
+                    throw;
+                }
+            }
+
+            void PeekBlock()
             {
                 if (m_i == m_block.end())
                 {
                     m_block.resize(blockSize);
 
-                    const size_t actually_read = m_in.Read(m_block.data(), blockSize);
+                    const size_t actually_read = ReadBlock();
 
                     if (actually_read == 0)
                     {
@@ -96,6 +113,26 @@ namespace awl
                 }
             }
 
+            // The underlying stream may return less bytes than requested before it reaches the end.
+            size_t ReadBlock()
+            {
+                size_t read_count = 0;
+
+                while (read_count != blockSize)
+                {
+                    const size_t count = m_in.Read(m_block.data() + read_count, blockSize - read_count);
+
+                    if (count == 0)
+                    {
+                        break;
+                    }
+
+                    read_count += count;
+                }
+
+                return read_count;
+            }
+
             void FlushBuf(uint8_t * buffer, size_t & flushed_count, size_t count)
             {
                 assert(m_i <= m_block.end());
-- 
2.43.0


From fc6edb6a74d65193321b976c148dcda6da3c7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 12/37] fix: HashInputStream passes a null pointer to memcpy
 when nothing is read

---
 Awl/Io/HashStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 29997e8..fa30306 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -137,7 +137,7 @@ namespace awl
             {
                 assert(m_i <= m_block.end());
                 
-                if (m_i != m_block.end())
+                if (m_i != m_block.end() && flushed_count != count)
                 {
                     const size_t available_count = static_cast<size_t>(m_block.end() - m_i);
 
-- 
2.43.0


From 198ff0e0766bf102d61b4ec722bd07ece7d0fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 13/37] fix: HashOutputStream terminates the process when the
 last block can't be written

---
 Awl/Io/HashStream.h          | 27 +++++++++++++++++++++++++--
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index fa30306..a7e5504 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -210,11 +210,24 @@ namespace awl
 
             ~HashOutputStream()
             {
-                Flush();
+                // The destructor is unable to report an error, call Finish() to be notified.
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
+            // Writes the last block. Should be called after all the data is written.
+            void Finish()
+            {
+                Flush();
+            }
+
         private:
 
             void Flush()
@@ -225,7 +238,17 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        // Do not write the failed block again.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..435badc 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Finish();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Finish();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From efed332d6d884f8decfe0991034397cdf94b33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 14/37] fix: AWL_REFLECT takes a list without spaces after
 commas for a single member

---
 Awl/Reflection.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..db03921 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -88,14 +88,19 @@ namespace awl
                 const char * p = va;
                 while (*p != 0)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    if (*p == ',')
                     {
                         assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
+                        //The spaces around a comma depend on how the arguments of the macro are formatted.
+                        const char * p_end = *(p - 1) == ' ' ? p - 1 : p;
+                        assert(p_end > p_start);
+                        accept(p_start, p_end - p_start);
                         p_start = nullptr;
                         eaten_separator = true;
-                        ++p;
+                        if (*(p + 1) == ' ')
+                        {
+                            ++p;
+                        }
                     }
                     else if (eaten_separator)
                     {
-- 
2.43.0


From 9ce4674df9776d3d016aeecbbf68d02fe081e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 15/37] fix: a corrupted variant or structure index is not
 rejected while reading

---
 Awl/Io/Reader.h              | 5 ++++-
 Awl/Io/Rw/VariantReadWrite.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..4dee4b7 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -338,7 +338,10 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
             return index;
         }
 
diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..e61cad3 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -55,7 +55,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 052e9f28dc3bf51fe3a221b71ada1de2e3f17c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 16/37] fix: skipping a container of structures reads them as
 structures of another type

---
 Awl/Io/Reader.h | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 4dee4b7..d675699 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -70,7 +70,39 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext{ context }.ReadV(in, val);
+            }
+        };
+
+        //A type name does not contain the names of the structures (vector<A> and vector<B> are both 'sequence<struct>'),
+        //so the structures in a skipped field can be of any type.
+        struct SkipContext
+        {
+            const Reader & context;
+
+            template <class T>
+            void ReadV(InputStream & in, T & val) const
+            {
+                if constexpr (is_reflectable_v<T>)
+                {
+                    if constexpr (std::is_default_constructible_v<T> && std::is_move_assignable_v<T>)
+                    {
+                        val = T{};
+                    }
+
+                    context.SkipStruct(in);
+                }
+                else if constexpr (is_tuplizable_v<T>)
+                {
+                    for_each(object_as_tuple(val), [this, &in](auto & field_val)
+                    {
+                        this->ReadV(in, field_val);
+                    });
+                }
+                else
+                {
+                    Read(in, val, *this);
+                }
             }
         };
 
-- 
2.43.0


From fafc4062ba8a87ada69cc978fb9cf0128cd419f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 17/37] fix: skipping corrupted nested structures recurses
 without a limit

---
 Awl/Io/Reader.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index d675699..5e27b1f 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -58,7 +58,7 @@ namespace awl::io
 
         struct FieldSkipper
         {
-            virtual void SkipField(const Reader & context, InputStream & in) const = 0;
+            virtual void SkipField(const Reader & context, InputStream & in, size_t depth) const = 0;
         };
 
         template <class Field>
@@ -66,11 +66,11 @@ namespace awl::io
         {
         public:
 
-            void SkipField(const Reader & context, InputStream & in) const override
+            void SkipField(const Reader & context, InputStream & in, size_t depth) const override
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                SkipContext{ context }.ReadV(in, val);
+                SkipContext{ context, depth }.ReadV(in, val);
             }
         };
 
@@ -80,6 +80,8 @@ namespace awl::io
         {
             const Reader & context;
 
+            size_t depth;
+
             template <class T>
             void ReadV(InputStream & in, T & val) const
             {
@@ -90,7 +92,7 @@ namespace awl::io
                         val = T{};
                     }
 
-                    context.SkipStruct(in);
+                    context.SkipStruct(in, depth);
                 }
                 else if constexpr (is_tuplizable_v<T>)
                 {
@@ -321,23 +323,29 @@ namespace awl::io
             }
         }
 
-        void SkipField(InputStream & s, Field old_field) const
+        void SkipField(InputStream & s, Field old_field, size_t depth = 0) const
         {
             if (old_field.type != Field::NoType)
             {
                 //Skip by type.
                 auto & skippers = this->GetFieldSkippers();
-                skippers[old_field.type]->SkipField(*this, s);
+                skippers[old_field.type]->SkipField(*this, s, depth);
             }
             else
             {
                 //The common routine for skipping structures.
-                SkipStruct(s);
+                SkipStruct(s, depth);
             }
         }
 
-        void SkipStruct(InputStream & s) const
+        void SkipStruct(InputStream & s, size_t depth = 0) const
         {
+            //A structure cannot contain itself, so the nesting level is limited by the number of the structures.
+            if (depth >= oldPrototypes.size() || depth >= maxSkipDepth)
+            {
+                throw CorruptionException();
+            }
+
             typename Base::StructIndexType old_struct_index = ReadStructIndex(s);
             const DetachedPrototype & old_proto = oldPrototypes[old_struct_index];
 
@@ -345,7 +353,7 @@ namespace awl::io
             {
                 const auto old_field = old_proto.GetField(old_index);
 
-                SkipField(s, old_field);
+                SkipField(s, old_field, depth + 1);
             }
         }
 
@@ -354,6 +362,8 @@ namespace awl::io
 
     private:
 
+        static constexpr size_t maxSkipDepth = 256;
+
         template <class S>
         auto & FindFieldReaders() const
         {
-- 
2.43.0


From bb87d08ed69177fee3ef076df9b492a1ae7dc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 18/37] fix: reading a container, an optional or a pointer
 keeps its previous content

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 Awl/Io/Rw/OptionalReadWrite.h   | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h    | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From 6b674b74611a309992338d165cd71f4cfeae80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 19/37] fix: a corrupted length allocates unlimited memory or
 throws a foreign exception

---
 Awl/Io/Rw/ReadRaw.h         | 28 ++++++++++++++++++++++++++++
 Awl/Io/Rw/StringReadWrite.h | 14 +++++++++-----
 Awl/Io/Rw/VectorReadWrite.h | 20 ++++++++++++++++++--
 3 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/Awl/Io/Rw/ReadRaw.h b/Awl/Io/Rw/ReadRaw.h
index 227e9c7..c66750c 100644
--- a/Awl/Io/Rw/ReadRaw.h
+++ b/Awl/Io/Rw/ReadRaw.h
@@ -9,6 +9,8 @@
 #include "Awl/Io/SerializationContext.h"
 #include "Awl/Io/SequentialStream.h"
 
+#include <algorithm>
+#include <cassert>
 #include <cstdint>
 
 namespace awl::io
@@ -29,4 +31,30 @@ namespace awl::io
             throw EndOfFileException(count, actually_read);
         }
     }
+
+    //A length that was read from a stream can be corrupted, so the memory is allocated in parts while there is data.
+    //Calls read_part(pos, count) each time the container grows.
+    template <class Container, class ReadPart>
+    void ReadGrowing(Container & v, size_t size, ReadPart read_part)
+    {
+        constexpr size_t max_part = (size_t(1024) * 1024 - 1) / sizeof(typename Container::value_type) + 1;
+
+        if (size > v.max_size())
+        {
+            throw CorruptionException();
+        }
+
+        v.resize(std::min(v.size(), size));
+
+        for (size_t pos = 0; pos < size;)
+        {
+            const size_t count = std::min(size - pos, max_part);
+
+            v.resize(std::max(v.size(), pos + count));
+
+            read_part(pos, count);
+
+            pos += count;
+        }
+    }
 }
diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..8f05ee3 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -45,16 +45,20 @@ namespace awl::io
 
         Read(s, len, ctx);
 
+        if (len > val.max_size())
+        {
+            throw CorruptionException();
+        }
+
         const size_t string_length = len * sizeof(Char);
 
         CheckStringLimit(ctx, string_length);
 
-        val.resize(len);
-
         //There is non-const version of data() since C++ 17.
-        ReadRaw(s, reinterpret_cast<uint8_t *>(val.data()), string_length);
-
-        *(val.data() + len) = 0;
+        ReadGrowing(val, len, [&s, &val](size_t pos, size_t count)
+        {
+            ReadRaw(s, reinterpret_cast<uint8_t *>(val.data() + pos), count * sizeof(Char));
+        });
     }
 
     template<
diff --git a/Awl/Io/Rw/VectorReadWrite.h b/Awl/Io/Rw/VectorReadWrite.h
index 304667f..8e76541 100644
--- a/Awl/Io/Rw/VectorReadWrite.h
+++ b/Awl/Io/Rw/VectorReadWrite.h
@@ -7,7 +7,9 @@
 
 #include "Awl/Io/Rw/ReadRaw.h"
 
+#include <algorithm>
 #include <array>
+#include <span>
 #include <vector>
 #include <type_traits>
 
@@ -99,9 +101,23 @@ namespace awl::io
 
         Read(s, size, ctx);
 
-        v.resize(size);
+        ReadGrowing(v, size, [&s, &v, &ctx](size_t pos, size_t count)
+        {
+            if constexpr (std::is_same_v<T, bool>)
+            {
+                std::vector<bool> part(count);
 
-        ReadVector(s, v, ctx);
+                ReadVector(s, part, ctx);
+
+                std::copy(part.begin(), part.end(), v.begin() + static_cast<std::ptrdiff_t>(pos));
+            }
+            else
+            {
+                std::span<T> part(v.data() + pos, count);
+
+                ReadVector(s, part, ctx);
+            }
+        });
     }
 
     template <class Stream, class T, class Allocator = std::allocator<T>, class Context = FakeContext>
-- 
2.43.0


From 74f5af44bb23fcee71c385c5bfb66f13312644c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 20/37] fix: VersionTolerantSerializable does not restore the
 value if a load fails with a foreign exception

---
 Awl/Io/VersionTolerantSerializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..f8b5aaf 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,7 +62,7 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
                         // Restore old value.
                         ReadSnapshot(v);
-- 
2.43.0


From 5dcfca8c7599283fd32c0c21e597cd6f9549c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 21/37] fix: AtomicStorage could lose or mix the saved values

- A save that followed a failed one overwrote the backup file while it was the only complete copy.
- Load() cleared the backup file even if it could not be read temporarily and there was no other copy, and
  overwrote the master file while the backup file was probably not flushed yet.
- The blocks of the previous value remained in a file that was being rewritten, so a partially written value
  could be read as a mixture of two values.
---
 Awl/Io/AtomicStorage.cpp | 26 ++++++++++++++++----------
 Awl/Io/AtomicStorage.h   | 27 +++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..fcd259e 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,13 +18,15 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
+        //The process that wrote the backup file probably terminated before flushing it.
+        m_backup.Flush();
+
+        m_backupComplete = true;
+
         WriteToStream(m_s, val);
-    }
 
-    ClearBackup();
+        ClearBackup();
 
-    if (backup_success)
-    {
         return true;
     }
 
@@ -32,6 +34,14 @@ bool AtomicStorage::Load(Value& val)
 
     bool master_success = LoadFromFile(val, m_s, LogLevel::Warning);
 
+    if (master_success)
+    {
+        //If the master file can't be read, the backup file can be the only copy that is probably readable later.
+        m_s.Flush();
+
+        ClearBackup();
+    }
+
     return master_success;
 }
 
@@ -39,9 +49,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
-
-        WriteToStream(m_s, val);
+        WriteBoth([&val](UniqueStream& s) { WriteToStream(s, val); });
     }
     else
     {
@@ -53,9 +61,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
-
-        WriteSnapshot(m_s, snapshotable, v);
+        WriteBoth([&snapshotable, &v](UniqueStream& s) { WriteSnapshot(s, snapshotable, v); });
     }
     
     ClearBackup();
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..3fd4a7b 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_backupComplete = other.m_backupComplete;
             return *this;
         }
 
@@ -60,6 +61,8 @@ namespace awl::io
         {
             try
             {
+                m_backupComplete = false;
+
                 m_s = awl::io::CreateUniqueFile(file_name);
                 const bool master_existed = OpenedExisting();
 
@@ -84,6 +87,7 @@ namespace awl::io
         {
             m_s = {};
             m_backup = {};
+            m_backupComplete = false;
         }
 
     private:
@@ -100,6 +104,9 @@ namespace awl::io
         {
             s.Seek(0);
 
+            //If the value is not written to the end, its blocks should not be mixed with the blocks of the previous one.
+            s.Truncate();
+
             func(s);
 
             s.Truncate();
@@ -116,10 +123,27 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
+        template <class Func>
+        void WriteBoth(Func&& write)
+        {
+            //If the previous attempt to write the master file failed, the backup file contains the only complete copy.
+            if (!m_backupComplete)
+            {
+                write(m_backup);
+
+                m_backupComplete = true;
+            }
+
+            write(m_s);
+        }
+
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         void ClearBackup()
         {
+            //The master file is complete now.
+            m_backupComplete = false;
+
             m_backup.Seek(0);
             m_backup.Truncate();
             m_backup.Flush();
@@ -128,5 +152,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        //The backup file is known to contain a complete value, but the master file is probably not.
+        bool m_backupComplete = false;
     };
 }
-- 
2.43.0


From 37d0a0b937c47760a7fbdfc1f80c980dcdd25c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 22/37] fix: decimal arithmetic overflow was silent

---
 Awl/Decimal.h          | 57 ++++++++++++++++++++++++++++++++++++------
 Awl/DecimalConstants.h | 13 +++++++++-
 2 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..761db19 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -129,13 +129,14 @@ namespace awl
         {
             if (val >= 0)
             {
+                set_unsigned_mantissa(static_cast<UInt>(val));
                 m_data.set_positive(true);
-                m_data.set_man(static_cast<UInt>(val));
             }
             else
             {
+                //The minimum value of Int can't be negated.
+                set_unsigned_mantissa(static_cast<UInt>(0) - static_cast<UInt>(val));
                 m_data.set_positive(false);
-                m_data.set_man(static_cast<UInt>(-val));
             }
         }
         
@@ -146,6 +147,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
@@ -173,7 +179,7 @@ namespace awl
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
             //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(static_cast<Int>(val * static_cast<double>(denominator())));
+            set_mantissa(double_to_mantissa(val * static_cast<double>(denominator())));
 
             return *this;
         }
@@ -404,7 +410,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::llround(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(double_to_mantissa(std::round(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -421,7 +427,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::ceil(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(double_to_mantissa(std::ceil(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -438,7 +444,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::floor(val * static_cast<double>(d.denominator()))));
+            d.set_mantissa(double_to_mantissa(std::floor(val * static_cast<double>(d.denominator()))));
 
             return d;
         }
@@ -458,6 +464,19 @@ namespace awl
 
     private:
 
+        static constexpr Int double_to_mantissa(double val)
+        {
+            constexpr double limit = static_cast<double>(max_mantissa()) + 1.0;
+
+            //NaN does not satisfy the condition.
+            if (!(-limit < val && val < limit))
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
+            return static_cast<Int>(val);
+        }
+
         //If check==false losing precision (trimming) is allowed.
         constexpr void rescale_self(uint8_t digits, bool check = true)
         {
@@ -842,9 +861,31 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        const size_t digits = static_cast<size_t>(a.exponent()) + b.exponent();
 
-        c.set_mantissa(a.mantissa() * b.mantissa());
+        if (digits > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        const UInt a_man = a.unsigned_mantissa();
+        const UInt b_man = b.unsigned_mantissa();
+
+        if (a_man != 0 && b_man > Decimal::max_mantissa() / a_man)
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(static_cast<uint8_t>(digits));
+
+        c.set_unsigned_mantissa(a_man * b_man);
+
+        if (a.positive() != b.positive())
+        {
+            c.negate();
+        }
 
         return c;
     }
diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index 7233ba0..15a65cd 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -29,9 +29,20 @@ namespace awl
                 return static_cast<UInt>(1) << n;
             }
 
+            //The maximum exponent such that the denominator is representable.
             static constexpr UInt max_exp()
             {
-                return p2(exp_len) - 1;
+                constexpr UInt limit = p2(exp_len) - 1;
+
+                UInt denom = static_cast<UInt>(-1);
+                UInt count = 0;
+
+                while (count < limit && (denom /= 10) != 0)
+                {
+                    ++count;
+                }
+
+                return count;
             }
 
             static constexpr UInt max_man()
-- 
2.43.0


From e24eca2c1cf05bb39b812210ccfb82d2a134180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 23/37] fix: negative zero decimal was not equal to zero

---
 Awl/Decimal.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 761db19..8f2c5b6 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -103,9 +103,10 @@ namespace awl
             return cast<double>();
         }
 
+        //Zero is always positive.
         constexpr bool positive() const
         {
-            return m_data.positive();
+            return m_data.positive() || m_data.man() == 0;
         }
 
         constexpr bool negative() const
@@ -186,7 +187,7 @@ namespace awl
 
         bool operator == (const decimal& other) const
         {
-            if (m_data.positive() == other.m_data.positive())
+            if (positive() == other.positive())
             {
                 const decimal a = normalize();
                 const decimal b = other.normalize();
@@ -595,9 +596,9 @@ namespace awl
 
             //1 < 0
 
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
+            auto make_sign = [](const decimal& val) -> uint8_t { return val.positive() ? 0 : 1; };
             
-            return comp(make_sign(b.m_data), make_sign(a.m_data));
+            return comp(make_sign(b), make_sign(a));
         }
 
         template <class Comp>
-- 
2.43.0


From 5fd78d5c01373457b315e51c1f710cb4202b45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 24/37] fix: decimal floor and ceil rounded negative values in
 the wrong direction

---
 Awl/Decimal.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 8f2c5b6..71e6e5d 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -376,14 +376,12 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            return negative() ? magnify(digits) : truncate(digits);
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
-            awl::decimal temp = *this;
-            temp.ceil_self(digits);
-            return temp;
+            return negative() ? truncate(digits) : magnify(digits);
         }
 
         constexpr Int rescaled_mantissa(uint8_t digits) const
@@ -465,6 +463,14 @@ namespace awl
 
     private:
 
+        //Rounds away from zero.
+        constexpr decimal magnify(uint8_t digits) const
+        {
+            awl::decimal temp = *this;
+            temp.ceil_self(digits);
+            return temp;
+        }
+
         static constexpr Int double_to_mantissa(double val)
         {
             constexpr double limit = static_cast<double>(max_mantissa()) + 1.0;
-- 
2.43.0


From e3d09c483831156b6a447083a950853cc32cd98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 25/37] fix: decimal parsing accepted malformed text

---
 Awl/Decimal.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 71e6e5d..2844a74 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -710,7 +710,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
@@ -721,6 +721,13 @@ namespace awl
             fixed_string = make_string_view<C>(i, fixed_string.end());
         }
 
+        constexpr C point[] = { '.', 0 };
+
+        if (fixed_string.empty() || fixed_string == point)
+        {
+            throw std::logic_error("No digits in a decimal string.");
+        }
+
         auto [i, int_digits, int_part] = parse_int(fixed_string, true);
 
         string_view fractional_text = make_string_view<C>(i, fixed_string.end());
@@ -794,11 +801,11 @@ namespace awl
     {
         uint8_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        std::size_t zero_count = 0;
 
         UInt val = 0;
 
-        auto do_append = [&digit_count, &val](UInt digit)
+        auto do_append = [&digit_count, &val, point_terminator](UInt digit)
         {
             val = val * 10u + digit;
 
@@ -808,7 +815,10 @@ namespace awl
                 throw std::logic_error("A decimal string is too long.");
             }
 
-            ++digit_count;
+            if (!point_terminator)
+            {
+                check_exp(++digit_count);
+            }
         };
 
         auto append = [&zero_count, &val, point_terminator, &do_append](UInt digit)
@@ -832,7 +842,7 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (std::size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From 324817084e355f8ea16399771b0f84e741d851a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 26/37] fix: decimal conversions to and from integers and float
 lost precision

---
 Awl/Decimal.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 2844a74..4915918 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -92,7 +92,16 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, Float> cast() const
         {
-            return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                const Int int_part = static_cast<Int>(m_data.man() / denominator());
+
+                return static_cast<Float>(positive() ? int_part : -int_part);
+            }
+            else
+            {
+                return static_cast<Float>(static_cast<double>(mantissa()) / static_cast<double>(denominator()));
+            }
         }
 
         //IEEE 754 double stores 2^53 without losing precision that is 15 decimal digits,
@@ -180,7 +189,22 @@ namespace awl
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
             //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(double_to_mantissa(val * static_cast<double>(denominator())));
+            if constexpr (std::is_integral_v<Float> && sizeof(Float) <= sizeof(UInt))
+            {
+                const UInt abs_val = val < 0 ? static_cast<UInt>(0) - static_cast<UInt>(val) : static_cast<UInt>(val);
+
+                if (abs_val > max_mantissa() / denominator())
+                {
+                    throw std::logic_error("Decimal overflow.");
+                }
+
+                m_data.set_positive(!(val < 0));
+                m_data.set_man(abs_val * denominator());
+            }
+            else
+            {
+                set_mantissa(double_to_mantissa(val * static_cast<double>(denominator())));
+            }
 
             return *this;
         }
-- 
2.43.0


From 00f95449126e757d3a98b4734f2a45f12a5447e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 27/37] fix: decimal operator << did not restore the fill
 character

---
 Awl/Decimal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 4915918..65a9f7d 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -812,7 +812,11 @@ namespace awl
 
         if (d.exponent() != 0)
         {
-            out << "." << std::setfill(static_cast<C>('0')) << std::setw(d.exponent()) << fractional_part;
+            const C fill = out.fill(static_cast<C>('0'));
+
+            out << "." << std::setw(d.exponent()) << fractional_part;
+
+            out.fill(fill);
         }
 
         return out;
-- 
2.43.0


From c4cbde556a05fb4e7194e226b246f34cb3bef1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 28/37] fix: decimal_to_nanoseconds was wrong with more than
 nine digits

---
 Awl/DecimalTime.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..bc8521a 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,16 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        //More than 9 digits are truncated.
+        const auto man = dec.rescale(9, false).mantissa();
+
+        const auto count = static_cast<std::chrono::nanoseconds::rep>(man);
+
+        if (count != man)
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        return std::chrono::nanoseconds(count);
     }
 }
-- 
2.43.0


From 97062c29fe03febcdef3516ea3b3f9d41c2a3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 29/37] fix: bitmap lost flags beyond the 64th and shifted by a
 wrong value in its list constructor

---
 Awl/BitMap.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..aa7b148 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -10,6 +10,8 @@
 #include <type_traits>
 #include <bitset>
 #include <initializer_list>
+#include <limits>
+#include <stdexcept>
 
 namespace awl
 {
@@ -32,10 +34,14 @@ namespace awl
 
         constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
         {
-            //for (Enum v : values)
-            //{
-            //    m_bits |= Enum2Bits(v);
-            //}
+            //std::bitset can be constructed as constexpr only from its first 64 bits.
+            if constexpr (N > long_bits)
+            {
+                for (Enum v : values)
+                {
+                    m_bits.set(Enum2Index(v));
+                }
+            }
         }
 
         constexpr bitmap operator|(Enum value) const
@@ -175,6 +181,8 @@ namespace awl
 
     private:
 
+        static constexpr std::size_t long_bits = std::numeric_limits<unsigned long long>::digits;
+
         static constexpr size_type Enum2Index(Enum value)
         {
             return static_cast<size_type>(value);
@@ -193,7 +201,17 @@ namespace awl
 
             for (Enum v : values)
             {
-                val |= (1ull << Enum2Index(v));
+                const auto index = static_cast<std::size_t>(v);
+
+                if (index >= static_cast<std::size_t>(N))
+                {
+                    throw std::out_of_range("Wrong bitmap value.");
+                }
+
+                if (index < long_bits)
+                {
+                    val |= (1ull << index);
+                }
             }
 
             return val;
-- 
2.43.0


From 9dda882ba19b1d851dd9c936d32aa7ad048c7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 30/37] fix: UpdateTask::release of a finished task leaked its
 coroutine frame

---
 Awl/Coro/UpdateTask.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..1df781e 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,9 +146,17 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                // It will never reach the final suspend point again, where a released task is destroyed.
+                free();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
 
-            m_h = nullptr;
+                m_h = nullptr;
+            }
         }
     }
 
-- 
2.43.0


From 839e615f4a7c332f1377f83f5f93bcaeab2b81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 31/37] fix: TimeQueue resumed the latest timer first

---
 Awl/Testing/TimeQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..fb709fb 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -49,7 +49,8 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        // std::priority_queue has the greatest element on the top, and we need the earliest one.
+        using Compare = member_compare<&Task::targetTime, std::greater<>>;
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From b425f05ff793f85d0c2425c8ba8a72adbdb7b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 32/37] fix: moving a scope_guard engaged a released one and
 lost the action of an overwritten one

---
 Awl/ScopeGuard.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..9ce1aa7 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,23 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(std::exchange(other.engaged, false))
         {
-            other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                if (engaged)
+                {
+                    free();
+                }
+
+                free = std::move(other.free);
+                engaged = std::exchange(other.engaged, false);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 7adea0f3412b2b1a0127dc8dd484a7e799a1a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 33/37] fix: self-move of unique_ptr left a dangling pointer

---
 Awl/UniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..2bdab87 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,7 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From 979a435e942764c7e9dfa13074b2bad05ff9b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 34/37] fix: 128-bit integers were padded to twice their width
 and the least one printed wrong

---
 Awl/String.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..b81b2f4 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
@@ -464,7 +453,8 @@ namespace awl
         {
             out << static_cast<C>('-');
 
-            return out << static_cast<__uint128_t>(-val);
+            // The least value has no positive counterpart.
+            return out << -static_cast<__uint128_t>(val);
         }
 
         return out << static_cast<__uint128_t>(val);
-- 
2.43.0


From 71497b7a3871618fbe364a1c8cc387203e5aed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 35/37] fix: math::round of negative numbers

---
 Awl/Math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Math.h b/Awl/Math.h
index 467eb20..9f6a0f9 100644
--- a/Awl/Math.h
+++ b/Awl/Math.h
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <type_traits>
 #include <functional>
 
@@ -33,7 +34,7 @@ namespace awl::math
     template <class I, class F>
     inline typename std::enable_if<std::is_integral<I>::value && std::is_floating_point<F>::value, I>::type round(F f)
     {
-        return static_cast<I>(f + 0.5f);
+        return static_cast<I>(std::round(f));
     }
 
     //std::clamp in C++17 is a bit different, it is constexpr and returns const T&
-- 
2.43.0


From 25c3b06c19483096802fbdc93e3c87c2016735d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 36/37] fix: an unsigned attribute above the int range was
 ignored

---
 Awl/Testing/ScalarFormatter.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/ScalarFormatter.h b/Awl/Testing/ScalarFormatter.h
index d33112b..e589acd 100644
--- a/Awl/Testing/ScalarFormatter.h
+++ b/Awl/Testing/ScalarFormatter.h
@@ -7,6 +7,8 @@
 
 #include "Awl/String.h"
 
+#include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace awl
@@ -62,7 +64,15 @@ namespace awl
 
             static void FromString(const String & s, unsigned int & val)
             {
-                val = static_cast<unsigned int>(std::stoi(s));
+                // There is no std::stou.
+                const unsigned long wide_val = std::stoul(s);
+
+                if (wide_val > std::numeric_limits<unsigned int>::max())
+                {
+                    throw std::out_of_range("unsigned int");
+                }
+
+                val = static_cast<unsigned int>(wide_val);
             }
 
             static void FromString(const String & s, long & val)
-- 
2.43.0


From 37c5949d15e47abf95d5b78a0958d91d40d1da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 37/37] fix: Assert::Throws did not fail when expecting a base
 of TestException

---
 Awl/Testing/TestAssert.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TestAssert.h b/Awl/Testing/TestAssert.h
index 5a6fc9e..f458c97 100644
--- a/Awl/Testing/TestAssert.h
+++ b/Awl/Testing/TestAssert.h
@@ -54,11 +54,14 @@ namespace awl::testing
             try
             {
                 func();
-                Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
             }
             catch (const E &)
             {
+                return;
             }
+
+            // It is outside of the try block, because E can be a base of TestException.
+            Assert::Fail(format() << _T("Exception of type '") << FromACString(typeid(E).name()) << _T("' was not thrown."));
         }
     };
 }
-- 
2.43.0

