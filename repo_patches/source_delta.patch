From 8468ba4166f84d66ce745f2be8b61e98a4ade47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 01/39] fix: parallel_hash_set::clear did not compile with an
 auxiliary container

`inner` is a reference, so lru_cache::clear() and mt_memoize_lru::clear()
could not be instantiated.
---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..fe87075 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3578,7 +3578,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3589,7 +3589,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From 12b68ac2f1e087ba1cf709d0422f668cbf333259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 02/39] fix: parallel erase/erase_if reported an erase it did
 not perform

With a shared mutex, when the key disappears between the read lock and the
write lock, nothing is erased, so the returned count must be 0.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index fe87075..e55dbc4 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3924,7 +3924,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From f1ea9b456a57f1a9527461c2da9a48854302d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 03/39] fix: rehash could shrink below the load factor and fill
 the table

rehash(0) (or rehash(n <= size())) picked a capacity equal to size(), leaving no
empty control byte and underflowing growth_left: lookups of absent keys then
never terminated.
---
 include/gtl/phmap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index e55dbc4..625ee80 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2345,7 +2345,9 @@ public:
         // bitor is a faster way of doing `max` here. We will round up to the next
         // power-of-2-minus-1, so bitor is good enough.
         // ----------------------------------------------------------------------------
-        auto m = NormalizeCapacity((std::max)(n, size()));
+        // The result must be able to hold size() elements within the load factor.
+        // ----------------------------------------------------------------------------
+        auto m = NormalizeCapacity((std::max)(n, GrowthToLowerboundCapacity(size())));
         // n == 0 unconditionally rehashes as per the standard.
         if (n == 0 || m > capacity_) {
             resize(m);
-- 
2.43.0


From ecafca3684a59ce6e6f5370655d94aba88f27e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 04/39] fix: raw_hash_set copy constructor destroyed an
 unconstructed slot on exception

The control byte was marked full before the element copy, so when the copy
threw, the destructor ran on a slot that never held an object.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 625ee80..1253f56 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1822,8 +1822,8 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
-            set_ctrl(target.offset, H2(hashval));
             emplace_at(target.offset, v);
+            set_ctrl(target.offset, H2(hashval));
         }
         size_ = that.size();
         growth_left() -= that.size();
-- 
2.43.0


From e9cd6d7929d61e4e37e1592e753bebd53a4dd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:31 +0000
Subject: [PATCH 05/39] fix: hash containers miscounted after a throwing
 element constructor

prepare_insert() updated size and growth before the element was constructed, so
an exception thrown by the constructor (or by a lazy_emplace/memoized callback)
left size() too large by one for the life of the container. The accounting now
happens after the construction succeeded.
---
 include/gtl/phmap.hpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1253f56..6627b1f 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2189,7 +2189,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2213,7 +2213,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2547,7 +2547,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2578,7 +2578,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2596,7 +2596,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2877,11 +2877,18 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
+    // Accounts for, and makes visible, the element just constructed at `i`, an
+    // index returned by prepare_insert(). Not called if the construction throws.
+    // --------------------------------------------------------------------------
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -3145,7 +3152,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3162,7 +3169,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3752,7 +3759,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3832,7 +3839,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3951,10 +3958,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4631,7 +4638,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4654,7 +4661,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4681,7 +4688,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4702,7 +4709,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From 556214c66bdaf2aabcb518af6a57da22d1f918bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 06/39] fix: node_hash containers leaked the node of a throwing
 constructor

new_element() allocated, then constructed; when the construction threw, nothing
freed the allocation.
---
 include/gtl/phmap.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 6627b1f..6d3c05a 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4862,7 +4862,17 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
         T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
+        // Give the memory back if the construction throws.
+        struct Guard {
+            ValueAlloc& alloc;
+            T*          mem;
+            ~Guard() {
+                if (mem)
+                    std::allocator_traits<ValueAlloc>::deallocate(alloc, mem, 1);
+            }
+        } guard{ value_alloc, res };
         std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
+        guard.mem = nullptr;
         return res;
     }
 
@@ -4901,7 +4911,17 @@ public:
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
         PairAlloc   pair_alloc(*alloc);
         value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
+        // Give the memory back if the construction throws.
+        struct Guard {
+            PairAlloc& alloc;
+            value_type*  mem;
+            ~Guard() {
+                if (mem)
+                    std::allocator_traits<PairAlloc>::deallocate(alloc, mem, 1);
+            }
+        } guard{ pair_alloc, res };
         std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
+        guard.mem = nullptr;
         return res;
     }
 
-- 
2.43.0


From 2a39b8ae0e16f6b2522572b87ac4c17d3602eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 07/39] fix: moving a hash container also moved away its hasher
 and key_equal

The comment requires them to be copied: with a std::function hasher, the
moved-from container could not be used (nor assigned to and reused) anymore.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 6d3c05a..245ae03 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1841,7 +1841,7 @@ public:
         // `that` must be left valid. If Hash is std::function<Key>, moving it
         // would create a nullptr functor that cannot be called.
         // -------------------------------------------------------------------
-        settings_(std::move(that.settings_)) {
+        settings_(that.settings_) {
         // growth_left was copied above, reset the one from `that`.
         that.growth_left() = 0;
     }
-- 
2.43.0


From e4ed2dda0cc46657154c551e3283f8a803031717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 08/39] fix: parallel_hash_set::swap could deadlock

a.swap(b) and b.swap(a) running concurrently took the two submap mutexes in
opposite orders, and a.swap(a) locked the same mutex twice.
---
 include/gtl/phmap.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 245ae03..d3d0153 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4140,9 +4140,17 @@ public:
         using Lockable2 = LockableImpl<Mtx2_>;
 
         for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
-            swap(sets_[i].set_, that.get_inner(i).set_);
+            if constexpr (std::is_same_v<Mtx_, Mtx2_>) {
+                if (this == &that)
+                    return;
+                // locks both without deadlock, even if another thread does that.swap(*this)
+                typename Lockable::UniqueLocks l(sets_[i], that.get_inner(i));
+                swap(sets_[i].set_, that.get_inner(i).set_);
+            } else {
+                UniqueLock                     l(sets_[i]);
+                typename Lockable2::UniqueLock l2(that.get_inner(i));
+                swap(sets_[i].set_, that.get_inner(i).set_);
+            }
         }
     }
 
-- 
2.43.0


From 105068519bef13782d3f6ec1d9ecddbd60b24b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 09/39] fix: comparing a parallel hash container with itself
 locked a mutex twice

a == a never returned with std::mutex.
---
 include/gtl/phmap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index d3d0153..28ed028 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3255,6 +3255,10 @@ protected:
             : set_(p.bucket_cnt, p.hashfn, p.eq, p.alloc) {}
 
         bool operator==(const Inner& o) const {
+            if (this == &o) { // don't lock the same mutex twice
+                SharedLock l(const_cast<Inner&>(*this));
+                return set_ == o.set_;
+            }
             typename Lockable::SharedLocks l(const_cast<Inner&>(*this), const_cast<Inner&>(o));
             return set_ == o.set_;
         }
-- 
2.43.0


From 4ac8e27da12b8cb58d95b50a102be3ae993d59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 10/39] fix: parallel containers: emplace with non-decomposable
 arguments and hinted node insert

emplace()/emplace_with_hash() hashed the key of a slot not constructed yet and,
like insert(hint, node), could not be instantiated.
---
 include/gtl/phmap.hpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 28ed028..ac15484 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3688,7 +3688,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
@@ -3736,12 +3740,12 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto&                                             elem  = PolicyTraits::element(slot);
-        Inner&                                                  inner = sets_[subidx(hashval)];
-        auto&                                                   set   = inner.set_;
-        UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        const auto& elem  = PolicyTraits::element(slot);
+        Inner&      inner = sets_[subidx(hashval)];
+        auto&       set   = inner.set_;
+        UniqueLock  m(inner);
+        using InsertSlotWithHash = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        return make_rv(&inner, PolicyTraits::apply(InsertSlotWithHash{ set, std::move(*slot), hashval }, elem));
     }
 
     template<class... Args>
@@ -3804,17 +3808,17 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
+        auto&       set     = inner.set_;
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        using InsertSlotWithHash = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        return make_rv(&inner, PolicyTraits::apply(InsertSlotWithHash{ set, std::move(*slot), hashval }, elem));
     }
 
     template<class... Args>
-- 
2.43.0


From b8789ebc78b5f0a2880373b0220c956a6b27c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 11/39] fix: moving or swapping a parallel container left its
 auxiliary container behind

lru_cache and mt_memoize_lru keep list iterators into the auxiliary list, so a
moved-to cache referred to nodes owned by (and freed with) the moved-from one.
---
 include/gtl/phmap.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index ac15484..d9cfb26 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3536,8 +3536,11 @@ public:
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                sets_[i].aux_ = std::exchange(that.sets_[i].aux_, aux_type{});
+        }
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3549,8 +3552,13 @@ public:
     parallel_hash_set& operator=(parallel_hash_set&& that) noexcept(
         std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_assignable_v<hasher> &&
         std::is_nothrow_move_assignable_v<key_equal>) {
-        for (size_t i = 0; i < num_tables; ++i)
+        if (this == &that)
+            return *this;
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = std::move(that.sets_[i].set_);
+            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                sets_[i].aux_ = std::exchange(that.sets_[i].aux_, aux_type{});
+        }
         return *this;
     }
 
@@ -4154,10 +4162,14 @@ public:
                 // locks both without deadlock, even if another thread does that.swap(*this)
                 typename Lockable::UniqueLocks l(sets_[i], that.get_inner(i));
                 swap(sets_[i].set_, that.get_inner(i).set_);
+                if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                    swap(sets_[i].aux_, that.get_inner(i).aux_);
             } else {
                 UniqueLock                     l(sets_[i]);
                 typename Lockable2::UniqueLock l2(that.get_inner(i));
                 swap(sets_[i].set_, that.get_inner(i).set_);
+                if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                    swap(sets_[i].aux_, that.get_inner(i).aux_);
             }
         }
     }
-- 
2.43.0


From d033a141e326fd500044ccde8c106e4a1c336a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 12/39] fix: lru_cache::get reordered the lru list under a read
 lock

With a shared mutex, concurrent get() calls modified the same std::list.
---
 include/gtl/lru_cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..93d1f47 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -61,7 +61,8 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        // updates the list, so this needs the write lock
+        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) {
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 81f11b10ac56f6334ae7f7288956f5c8449b1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 13/39] fix: bit_vector.hpp defined a non-inline function
 (multiple definitions when included twice)

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..8bfd944 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -49,7 +49,7 @@ static constexpr size_t _popcount64(uint64_t y) {
 }
 
 // De Bruijn Multiplication With separated LS1B - author Kim Walisch (2012)
-unsigned countr_zero(uint64_t bb) {
+inline unsigned countr_zero(uint64_t bb) {
     const unsigned index64[64] = { 0,  47, 1,  56, 48, 27, 2,  60, 57, 49, 41, 37, 28, 16, 3,  61,
                                    54, 58, 35, 52, 50, 42, 21, 44, 38, 32, 29, 23, 17, 11, 4,  62,
                                    46, 55, 26, 59, 40, 36, 15, 53, 34, 51, 20, 43, 31, 22, 10, 45,
-- 
2.43.0


From 468e71abd5a06815c6d2f203b14120b541de27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 14/39] fix: bit_vector::resize(n, true) left new bits of the
 last slot unset

---
 include/gtl/bit_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 8bfd944..331751c 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -80,8 +80,11 @@ public:
 
     // -------------------------------------------------------------------------------
     void resize(size_t num_bits, bool val = false) {
-        _sz              = num_bits;
-        size_t num_slots = slot_cnt(num_bits);
+        const size_t old_sz = _sz;
+        _sz                 = num_bits;
+        size_t num_slots    = slot_cnt(num_bits);
+        if (val && num_bits > old_sz && mod(old_sz))
+            _s[slot(old_sz)] |= himask(old_sz); // new bits which fall in the last existing slot
         _s.resize(num_slots, val ? ones : 0);
         if (mod(num_bits))
             _s[num_slots - 1] &= ~himask(num_bits); // make sure to zero the remainder bits in last slot
@@ -367,7 +370,7 @@ private:
     }
 
     std::vector<uint64_t, A> _s;
-    size_t                   _sz;
+    size_t                   _sz = 0;
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From a1220f5806816b8b9cc69699c931b2966d6021f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 15/39] fix: bit_view::find_first/find_next were off when the
 view ended in a partial slot

---
 include/gtl/bit_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 331751c..dc05344 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -685,8 +685,9 @@ public:
         size_t idx = _first;
         _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int shift) {
             if (v) {
-                idx += countr_zero(v) - shift; // we could use std::countr_zero in c++20
-                return true;                   // stop iterating
+                // shift is negative for the last slot, which is visited from its first bit
+                idx += countr_zero(v) - (shift > 0 ? shift : 0); // we could use std::countr_zero in c++20
+                return true;                                     // stop iterating
             } else {
                 idx += stride - shift;
                 return false;
-- 
2.43.0


From 30e70fe4313a435027370af2c2bd13a3dd83d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 16/39] fix: assigning overlapping bit_views of the same
 bit_vector

---
 include/gtl/bit_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index dc05344..23105d1 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -552,13 +552,13 @@ public:
 
     _view& operator=(const _view& o) {
         assert(size() == o.size());
-        if ((&_bv != &o._bv) || (_first < o._first) || (_first <= o._last)) {
+        if ((&_bv != &o._bv) || (_first <= o._first) || (_first >= o._last)) {
             typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
             _bv.storage().template visit<vt::none>(_first, _last, [&](uint64_t, int) { return seq(); });
-        } else if (_first > o._first) {
-            // both views are on same bitmap, and we are copying backward with an overlap
-            typename S::bit_sequence seq(_bv.storage(), _first, _last, o._first);
-            o._bv.storage().template visit<vt::none>(o._first, o._last, [&](uint64_t, int) { return seq(); });
+        } else {
+            // both views are on same bitmap, and we are copying to a higher position with an overlap
+            for (size_t i = size(); i-- > 0;)
+                set(i, o[i]);
         }
         return *this;
     }
-- 
2.43.0


From 98ac026a2f3c4776b9bb551518a6aadac0f59343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 17/39] fix: bit_view::contains read past the end of a smaller
 view

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 23105d1..1c9332e 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -631,7 +631,7 @@ public:
             return false;
         bool                     res = true;
         typename S::bit_sequence seq(o._bv.storage(), o._first, o._last, _first);
-        _bv.storage().template visit<vt::view>(_first, _last, [&](uint64_t v, int) {
+        _bv.storage().template visit<vt::view>(_first, _first + o.size(), [&](uint64_t v, int) {
             if ((v | seq()) != v) {
                 res = false;
             }
-- 
2.43.0


From e5492a8c69957ec298e7913bec190d17a26589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 18/39] fix: assigning an integer to a bit_view straddling two
 slots

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index 1c9332e..c97d969 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -534,7 +534,7 @@ public:
         // only works for view width <= 64 bits
         assert(size() <= stride);
         _bv.storage().template visit<vt::none>(
-            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> shl; });
+            _first, _last, [val](uint64_t, int shl) { return shl >= 0 ? val << shl : val >> ((int)stride + shl); });
         return *this;
     }
 
-- 
2.43.0


From dcd3fc322d58d876b1aca1f32a9876017b2600ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 19/39] fix: set() and reset() of an empty bit_vector accessed
 its first slot

---
 include/gtl/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index c97d969..eff1d8e 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -318,6 +318,8 @@ public:
     template<vt flags, class F>
     void visit_all([[maybe_unused]] F f) {
         size_t num_slots = slot_cnt(_sz);
+        if (!num_slots)
+            return;
         if constexpr (flags & vt::false_) {
             // set all bits to 0
             // std::fill(&_s[0], &_s[0] + num_slots, 0);
@@ -331,8 +333,6 @@ public:
                 _s[num_slots - 1] &= ~m; // mask last bits to 0
             }
         } else {
-            if (!num_slots)
-                return;
             size_t slot;
             for (slot = 0; slot < num_slots - 1; ++slot) {
                 const uint64_t s  = _s[slot];
-- 
2.43.0


From 9aab9b81d5b50ad40259c6b6f968f1132dcc2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 20/39] fix: a moved-from bit_vector kept its size without its
 bits

---
 include/gtl/bit_vector.hpp | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index eff1d8e..b9c1c6a 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -15,6 +15,7 @@
 #include <cstring>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 // #include <bit>
 #include <cassert>
@@ -76,6 +77,26 @@ template<class A>
 class storage {
 public:
     storage(size_t num_bits = 0, bool val = false) { resize(num_bits, val); }
+
+    storage(const storage&)            = default;
+    storage& operator=(const storage&) = default;
+
+    // a moved-from storage is empty
+    storage(storage&& o) noexcept
+        : _s(std::move(o._s))
+        , _sz(std::exchange(o._sz, 0)) {
+        o._s.clear();
+    }
+
+    storage& operator=(storage&& o) noexcept {
+        if (this != &o) {
+            _s  = std::move(o._s);
+            _sz = std::exchange(o._sz, 0);
+            o._s.clear();
+        }
+        return *this;
+    }
+
     size_t size() const { return _s.size(); } // size in slots
 
     // -------------------------------------------------------------------------------
@@ -773,6 +794,22 @@ public:
         : _sz(sz)
         , _s(sz, val) {}
 
+    vec(const vec&)            = default;
+    vec& operator=(const vec&) = default;
+
+    // a moved-from bit_vector is empty
+    vec(vec&& o) noexcept
+        : _sz(std::exchange(o._sz, 0))
+        , _s(std::move(o._s)) {}
+
+    vec& operator=(vec&& o) noexcept {
+        if (this != &o) {
+            _sz = std::exchange(o._sz, 0);
+            _s  = std::move(o._s);
+        }
+        return *this;
+    }
+
     explicit vec(std::initializer_list<uint64_t> vals)
         : vec(vals.size() * stride) {
         *this = vals;
-- 
2.43.0


From 1d94743775979bce55841d1fe9787f940add8a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 21/39] fix: vector::steal_data did not compile, and returned
 the end of the buffer

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..34130e0 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -202,7 +202,7 @@ private:
             b_ = newB;
         }
 
-        pointer data() const { return z_; }
+        pointer data() const { return b_; }
 
         void reset(size_type newCap) {
             destroy();
@@ -726,7 +726,7 @@ public:
     // return value to be used in accordance with vector's allocator
     std::unique_ptr<T> steal_data() {
         std::unique_ptr<T> res(impl_.data());
-        impl_.set(nullptr, nullptr, nullptr); // don't deallocate the buffer!!
+        impl_.set(nullptr, 0, 0); // don't deallocate the buffer!!
         return res;
     }
 
-- 
2.43.0


From 43e5f18a4dc174f380edf0d625d5373ad347e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 22/39] fix: vector::emplace with arguments referring to an
 element of the vector

---
 include/gtl/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 34130e0..2478186 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1462,6 +1462,10 @@ private: // we have the private section first because it defines some macros
 public:
     template<class... Args>
     iterator emplace(const_iterator cpos, Args&&... args) {
+        if (cpos != cend()) {
+            // args may refer to elements of this vector which are about to be moved
+            return insert(cpos, T(std::forward<Args>(args)...));
+        }
         return do_real_insert(
             cpos,
             1,
-- 
2.43.0


From 8c8f752ce5e3a07146e3cf18750426000593b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 23/39] fix: converting assignment and move construction of
 intrusive_ptr

---
 include/gtl/intrusive.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..627524c 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -71,7 +71,7 @@ public:
             intrusive_ptr_add_ref(px);
     }
 
-    template<class U, typename std::enable_if_t<std::is_convertible_v<U, T>, int> = 0>
+    template<class U, typename std::enable_if_t<std::is_convertible_v<U*, T*>, int> = 0>
     intrusive_ptr(intrusive_ptr<U>&& rhs)
         : px(rhs.px) {
         rhs.px = nullptr;
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 78c55fabed1248ae15269ba43875d3a757b9a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 24/39] fix: slice with a stride dropped the last element of an
 uneven range

---
 include/gtl/vec_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gtl/vec_utils.hpp b/include/gtl/vec_utils.hpp
index 968e36b..de5a90b 100644
--- a/include/gtl/vec_utils.hpp
+++ b/include/gtl/vec_utils.hpp
@@ -51,10 +51,10 @@ auto slice(V&& v, int first = 0, int last = -1, int stride = 1) {
         (first >= 0 ? std::begin(std::forward<V>(v)) + first : std::end(std::forward<V>(v)) + (first + 1));
     auto last_iter = (last >= 0 ? std::begin(std::forward<V>(v)) + last : std::end(std::forward<V>(v)) + (last + 1));
     if (last_iter > first_iter) {
-        std::size_t cnt = (last_iter - first_iter) / stride;
+        std::size_t cnt = (last_iter - first_iter + stride - 1) / stride;
         res.reserve(cnt);
-        for (; cnt-- != 0; first_iter += stride)
-            res.push_back(*first_iter);
+        for (std::size_t i = 0; i < cnt; ++i)
+            res.push_back(first_iter[i * stride]);
     }
     return res;
 }
-- 
2.43.0


From 3217cf4595af207e3d5ebd6ee3f0cf6fc4d25a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 25/39] fix: combinators.hpp did not compile

---
 include/gtl/combinators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/combinators.hpp b/include/gtl/combinators.hpp
index 9400c76..199cfe2 100644
--- a/include/gtl/combinators.hpp
+++ b/include/gtl/combinators.hpp
@@ -1,4 +1,4 @@
-pragma once
+#pragma once
 
 /*
  * from https://github.com/codereport/blackbird  - Copyright (c) 2022 Conor Hoekstra
-- 
2.43.0


From 27a8220f829b58099b3243bc447c9ad78ed8d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:11 +0000
Subject: [PATCH 26/39] fix: parallel hash containers keep the allocator on
 move construction

---
 include/gtl/phmap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index d9cfb26..df547e9 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3535,7 +3535,8 @@ public:
                                                          std::is_nothrow_copy_constructible_v<allocator_type>)
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
-    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
+    parallel_hash_set(parallel_hash_set&& that, const allocator_type& a)
+        : parallel_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-- 
2.43.0


From f7a6430fcc5e65d32a1a085e29f3194836f7775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:01 +0000
Subject: [PATCH 27/39] fix: hash containers whose allocator propagates on
 assignment but not on swap

---
 include/gtl/phmap.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index df547e9..8dd08ba 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1871,7 +1871,10 @@ public:
     raw_hash_set& operator=(const raw_hash_set& that) {
         raw_hash_set tmp(that,
                          AllocTraits::propagate_on_container_copy_assignment::value ? that.alloc_ref() : alloc_ref());
-        swap(tmp);
+        if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            swap_with_allocator(tmp);
+        else
+            swap(tmp);
         return *this;
     }
 
@@ -2824,9 +2827,18 @@ private:
     }
 
     // TODO(alkis): Optimize this assuming *this and that don't overlap.
+    // swap() leaves the allocators alone unless `propagate_on_container_swap`
+    void swap_with_allocator(raw_hash_set& that) {
+        using std::swap;
+        this->swap(that);
+        if constexpr (!AllocTraits::propagate_on_container_swap::value &&
+                      !AllocTraits::is_always_equal::value)
+            swap(alloc_ref(), that.alloc_ref());
+    }
+
     raw_hash_set& move_assign(raw_hash_set&& that, std::true_type) {
         raw_hash_set tmp(std::move(that));
-        swap(tmp);
+        swap_with_allocator(tmp);
         return *this;
     }
     raw_hash_set& move_assign(raw_hash_set&& that, std::false_type) {
-- 
2.43.0


From e9043a4dbb9feaf7c783f7b10ba2409d1041f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:05 +0000
Subject: [PATCH 28/39] fix: reserve makes room for the elements when erased
 slots take it up

---
 include/gtl/phmap.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 8dd08ba..280685b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2357,7 +2357,12 @@ public:
         }
     }
 
-    void reserve(size_t n) { rehash(GrowthToLowerboundCapacity(n)); }
+    void reserve(size_t n) {
+        rehash(GrowthToLowerboundCapacity(n));
+        // slots of erased elements may keep `n` elements from fitting: reclaim them
+        if (n > size() + growth_left())
+            resize(capacity_);
+    }
 
     // Extension API: support for heterogeneous keys.
     //
-- 
2.43.0


From 6a27c6486650cc97b3503a83152e9b31fe2c64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 29/39] fix: no leak when moving elements to another allocator
 throws

---
 include/gtl/phmap.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 280685b..55f7d44 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1847,11 +1847,7 @@ public:
     }
 
     raw_hash_set(raw_hash_set&& that, const allocator_type& a)
-        : ctrl_(EmptyGroup<std_alloc_t>())
-        , slots_(nullptr)
-        , size_(0)
-        , capacity_(0)
-        , settings_(0, that.hash_ref(), that.eq_ref(), a) {
+        : raw_hash_set(0, that.hash_ref(), that.eq_ref(), a) {
         if (a == that.alloc_ref()) {
             std::swap(ctrl_, that.ctrl_);
             std::swap(slots_, that.slots_);
-- 
2.43.0


From f5cd4640d7b009ce4f5568091936a036164d547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:54 +0000
Subject: [PATCH 30/39] fix: emplace of a key built from its arguments does not
 leak when allocation throws

---
 include/gtl/phmap.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 55f7d44..eb7cdd9 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2574,17 +2574,27 @@ private:
         size_t        hashval;
     };
 
+    // Destroys a constructed slot which was not moved into the table, also if an exception is thrown.
+    struct SlotGuard {
+        ~SlotGuard() {
+            if (slot)
+                PolicyTraits::destroy(&s.alloc_ref(), slot);
+        }
+        raw_hash_set& s;
+        slot_type*    slot;
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
-            size_t hashval = s.hash(key);
-            auto   res     = s.find_or_prepare_insert(key, hashval);
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
+            size_t    hashval = s.hash(key);
+            auto      res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
@@ -2597,12 +2607,12 @@ private:
     struct InsertSlotWithHash {
         template<class K, class... Args>
         std::pair<iterator, bool> operator()(const K& key, Args&&...) && {
-            auto res = s.find_or_prepare_insert(key, hashval);
+            SlotGuard guard{ s, do_destroy ? &slot : nullptr };
+            auto      res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
+                guard.slot = nullptr;
                 s.commit_insert(res.first, hashval);
-            } else if (do_destroy) {
-                PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
             return { s.iterator_at(res.first), res.second };
         }
-- 
2.43.0


From 1715e81bbc61dc2bb87e0448b4b518f0c59ee2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:13 +0000
Subject: [PATCH 31/39] fix: dump and load report failed writes and reads, keep
 hash function and allocator

---
 include/gtl/phmap_dump.hpp | 91 ++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..ad09873 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -49,6 +49,28 @@ namespace priv {
 static constexpr size_t s_version_base = std::numeric_limits<size_t>::max() - 32;
 static constexpr size_t s_version      = s_version_base + 1;
 
+// ------------------------------------------------------------------------
+// an archive's saveBinary/loadBinary either returns whether it succeeded, or
+// returns void and throws
+// ------------------------------------------------------------------------
+template<typename OutputArchive>
+bool dump_bytes(OutputArchive& ar, const void* p, size_t sz) {
+    if constexpr (std::is_void_v<decltype(ar.saveBinary(p, sz))>) {
+        ar.saveBinary(p, sz);
+        return true;
+    } else
+        return static_cast<bool>(ar.saveBinary(p, sz));
+}
+
+template<typename InputArchive>
+bool load_bytes(InputArchive& ar, void* p, size_t sz) {
+    if constexpr (std::is_void_v<decltype(ar.loadBinary(p, sz))>) {
+        ar.loadBinary(p, sz);
+        return true;
+    } else
+        return static_cast<bool>(ar.loadBinary(p, sz));
+}
+
 // ------------------------------------------------------------------------
 // dump/load for raw_hash_set
 // ------------------------------------------------------------------------
@@ -58,15 +80,14 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_dump(OutputArchive& ar) const
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
 
-    ar.saveBinary(&s_version, sizeof(size_t));
-    ar.saveBinary(&size_, sizeof(size_t));
-    ar.saveBinary(&capacity_, sizeof(size_t));
+    if (!dump_bytes(ar, &s_version, sizeof(size_t)) || !dump_bytes(ar, &size_, sizeof(size_t)) ||
+        !dump_bytes(ar, &capacity_, sizeof(size_t)))
+        return false;
     if (size_ == 0)
         return true;
-    ar.saveBinary(&growth_left(), sizeof(size_t));
-    ar.saveBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.saveBinary(slots_, sizeof(slot_type) * capacity_);
-    return true;
+    return dump_bytes(ar, &growth_left(), sizeof(size_t)) &&
+           dump_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) &&
+           dump_bytes(ar, slots_, sizeof(slot_type) * capacity_);
 }
 
 template<class Policy, class Hash, class Eq, class Alloc>
@@ -74,35 +95,42 @@ template<typename InputArchive>
 bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
-    raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
-    size_t version = 0;
-    ar.loadBinary(&version, sizeof(size_t));
+    destroy_slots(); // clear any existing content
+    size_t version = 0, size = 0, capacity = 0, growth = 0;
+    if (!load_bytes(ar, &version, sizeof(size_t)))
+        return false;
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
+        size    = version;
         version = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        if (!load_bytes(ar, &size, sizeof(size_t)))
+            return false;
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    if (!load_bytes(ar, &capacity, sizeof(size_t)))
+        return false;
 
-    if (capacity_) {
+    if (capacity) {
         // allocate memory for ctrl_ and slots_
-        initialize_slots(capacity_);
+        initialize_slots(capacity);
+        capacity_ = capacity;
     }
-    if (size_ == 0)
+    if (size == 0)
         return true;
-    if (version > 0) {
-        // growth_left should be restored after calling initialize_slots() which resets it.
-        ar.loadBinary(&growth_left(), sizeof(size_t));
+    // growth_left should be restored after calling initialize_slots() which resets it.
+    if ((version > 0 && !load_bytes(ar, &growth, sizeof(size_t))) ||
+        !load_bytes(ar, ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1)) ||
+        !load_bytes(ar, slots_, sizeof(slot_type) * capacity_)) {
+        reset_ctrl(capacity_); // incomplete data: leave the container empty
+        return false;
     }
-    ar.loadBinary(ctrl_, sizeof(ctrl_t) * (capacity_ + Group::kWidth + 1));
-    ar.loadBinary(slots_, sizeof(slot_type) * capacity_);
-    if (version == 0) {
+    size_ = size;
+    if (version > 0)
+        growth_left() = growth;
+    else
         drop_deletes_without_resize(); // because we didn't load `&growth_left()`
-    }
     return true;
 }
 
@@ -124,7 +152,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = subcnt();
-    ar.saveBinary(&submap_count, sizeof(size_t));
+    if (!dump_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     for (size_t i = 0; i < sets_.size(); ++i) {
         auto&                         inner = sets_[i];
         typename Lockable::UniqueLock m(const_cast<Inner&>(inner));
@@ -151,7 +180,8 @@ bool parallel_hash_set<N, RefSet, Mtx_, AuxCont, Policy, Hash, Eq, Alloc>::phmap
                   "value_type should be trivially copyable");
 
     size_t submap_count = 0;
-    ar.loadBinary(&submap_count, sizeof(size_t));
+    if (!load_bytes(ar, &submap_count, sizeof(size_t)))
+        return false;
     if (submap_count != subcnt()) {
         std::cerr << "submap count(" << submap_count << ") != N(" << N << ")" << std::endl;
         return false;
@@ -191,13 +221,12 @@ public:
 
     bool saveBinary(const void* p, size_t sz) {
         ofs_.write(reinterpret_cast<const char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return ofs_.flush().good(); // flush, or a write error would go unnoticed until the file is closed
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type saveBinary(const V& v) {
-        ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V));
-        return true;
+        return ofs_.write(reinterpret_cast<const char*>(&v), sizeof(V)).good();
     }
 
     template<typename Map>
@@ -218,14 +247,12 @@ public:
     BinaryInputArchive& operator=(const BinaryInputArchive&) = delete;
 
     bool loadBinary(void* p, size_t sz) {
-        ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz));
-        return true;
+        return ifs_.read(reinterpret_cast<char*>(p), static_cast<std::streamsize>(sz)).good();
     }
 
     template<typename V>
     typename std::enable_if<type_traits_internal::IsTriviallyCopyable<V>::value, bool>::type loadBinary(V* v) {
-        ifs_.read(reinterpret_cast<char*>(v), sizeof(V));
-        return true;
+        return ifs_.read(reinterpret_cast<char*>(v), sizeof(V)).good();
     }
 
     template<typename Map>
-- 
2.43.0


From ef36be405adce889539aa387a670b1df8ccf72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:26 +0000
Subject: [PATCH 32/39] fix: btree move assignment between different allocators
 leaves the source empty, not unordered

---
 include/gtl/btree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..801e3d3 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2507,6 +2507,8 @@ auto btree<P>::operator=(btree&& x) noexcept -> btree& {
                 // ----------------------------------------------------------------------
                 *mutable_key_comp() = x.key_comp();
                 copy_or_move_values_in_order(&x);
+                // its values were moved from, so they are not in order any more
+                x.clear();
             }
         }
     }
-- 
2.43.0


From b5b6b7c65b6befadc1fe940209f8993369d33846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 33/39] fix: gtl::vector aligns elements of over-aligned types

---
 include/gtl/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 2478186..4ebb8d1 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -147,7 +147,7 @@ private:
         // allocation
         // note that 'allocate' and 'deallocate' are inherited from Allocator
         T* D_allocate(size_type n) {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 return static_cast<T*>(checkedMalloc(n * sizeof(T)));
             } else {
                 return std::allocator_traits<Allocator>::allocate(*this, n);
@@ -155,7 +155,7 @@ private:
         }
 
         void D_deallocate(T* p, size_type n) noexcept {
-            if constexpr (usingStdAllocator) {
+            if constexpr (usingStdAllocator && alignof(T) <= alignof(std::max_align_t)) {
                 free(p);
             } else {
                 std::allocator_traits<Allocator>::deallocate(*this, p, n);
-- 
2.43.0


From e7118900c4ff7fc3d94a0e4acadcf6ee1ef43aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:02 +0000
Subject: [PATCH 34/39] fix: memoized functions keep copies of arguments passed
 by reference

---
 include/gtl/memoize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..984870b 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -74,7 +74,7 @@ class mt_memoize;
 template<class F, bool recursive, size_t N, class Mutex, class... Args>
 class mt_memoize<F, recursive, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // own the arguments, even those passed by reference
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using map_type    = gtl::parallel_flat_hash_map<key_type,
                                                  result_type,
@@ -177,7 +177,7 @@ class mt_memoize_lru;
 template<class F, size_t N, class Mutex, class... Args>
 class mt_memoize_lru<F, N, Mutex, pack<Args...>> {
 public:
-    using key_type    = std::tuple<Args...>;
+    using key_type    = std::tuple<std::decay_t<Args>...>; // own the arguments, even those passed by reference
     using result_type = decltype(std::declval<F>()(std::declval<Args>()...));
     using value_type  = typename std::pair<const key_type, result_type>;
 
-- 
2.43.0


From f468391f6efd6978f5d98e982482ef6635d4f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 35/39] fix: binary_search middle functions over wide and
 negative ranges

---
 include/gtl/adv_utils.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..fefa778 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,8 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <bit>
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
@@ -77,7 +79,7 @@ struct middle {};
 template<std::integral T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        if (r - l > 1)
+        if (l < r && l + 1 < r) // `r - l` might overflow
             return std::midpoint(l, r);
         return {};
     }
@@ -88,13 +90,14 @@ struct middle<T> {
 template<is_double T>
 struct middle<T> {
     std::optional<T> operator()(T l, T r) {
-        uint64_t* il = reinterpret_cast<uint64_t*>(&l);
-        uint64_t* ir = reinterpret_cast<uint64_t*>(&r);
-        auto      m  = middle<uint64_t>()(*il, *ir);
-        if (m) {
-            uint64_t med = *m;
-            return *(T*)&med;
-        }
+        constexpr uint64_t sign = uint64_t(1) << 63;
+        // negative numbers are ordered by decreasing binary representation
+        auto ordered = [](T v) {
+            auto i = std::bit_cast<uint64_t>(v);
+            return (i & sign) ? ~i : (i | sign);
+        };
+        if (auto m = middle<uint64_t>()(ordered(l), ordered(r)))
+            return std::bit_cast<T>((*m & sign) ? (*m & ~sign) : ~*m);
         return {};
     }
 };
-- 
2.43.0


From bcfe69b2ddf08d6a09dee183894d78765f3616c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:21 +0000
Subject: [PATCH 36/39] fix: swap(a, b) of parallel containers takes the locks

---
 include/gtl/phmap.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index eb7cdd9..b1f9e1b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -5483,6 +5483,9 @@ public:
     using Base::subcnt;
     using Base::subidx;
     using Base::swap;
+
+    // better match than std::swap(), which would not lock
+    friend void swap(parallel_flat_hash_set& a, parallel_flat_hash_set& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5545,6 +5548,9 @@ public:
     using Base::key_eq;
     using Base::load_factor;
     using Base::max_load_factor;
+
+    // better match than std::swap(), which would not lock
+    friend void swap(parallel_flat_hash_map& a, parallel_flat_hash_map& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5604,6 +5610,9 @@ public:
     using Base::swap;
     typename Base::hasher hash_funct() { return this->hash_function(); }
     void                  resize(typename Base::size_type hint) { this->rehash(hint); }
+
+    // better match than std::swap(), which would not lock
+    friend void swap(parallel_node_hash_set& a, parallel_node_hash_set& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 // -----------------------------------------------------------------------------
@@ -5668,6 +5677,9 @@ public:
     using Base::max_load_factor;
     typename Base::hasher hash_funct() { return this->hash_function(); }
     void                  resize(typename Base::size_type hint) { this->rehash(hint); }
+
+    // better match than std::swap(), which would not lock
+    friend void swap(parallel_node_hash_map& a, parallel_node_hash_map& b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 };
 
 } // namespace gtl
-- 
2.43.0


From 56f995f2f41404c9624535d5ee99d97745b58a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 37/39] fix: comparing two parallel containers takes the shared
 locks in a fixed order

---
 include/gtl/phmap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index b1f9e1b..259533b 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -496,8 +496,11 @@ public:
         explicit ReadLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            _m1.lock_shared();
-            _m2.lock_shared();
+            // always in the same order: when a waiting writer blocks new readers, two threads
+            // locking (a, b) and (b, a) could otherwise wait for each other.
+            const bool m1_first = std::less<mutex_type*>()(&_m1, &_m2);
+            (m1_first ? _m1 : _m2).lock_shared();
+            (m1_first ? _m2 : _m1).lock_shared();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
-- 
2.43.0


From cb08cf873324bb3e806a81d633d27762ac920e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 38/39] fix: loading an old-format dump of a small table read
 and wrote past its control bytes

---
 include/gtl/phmap_dump.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index ad09873..1143a60 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -130,7 +130,7 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     if (version > 0)
         growth_left() = growth;
     else
-        drop_deletes_without_resize(); // because we didn't load `&growth_left()`
+        resize(capacity_); // rebuild the table, because we didn't load `&growth_left()`
     return true;
 }
 
-- 
2.43.0


From b498f84954c4be06a98878d5a83bc3b2eff6dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:40 +0000
Subject: [PATCH 39/39] fix: parallel containers: extract(key) holds the
 submap's lock

---
 include/gtl/phmap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 259533b..9712ede 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4171,8 +4171,12 @@ public:
 
     template<class K = key_type, typename std::enable_if_t<!std::is_same_v<K, iterator>, int> = 0>
     node_type extract(const key_arg<K>& key) {
-        auto it = find(key);
-        return it == end() ? node_type() : extract(const_iterator{ it });
+        size_t     hashval = this->hash(key);
+        Inner&     inner   = sets_[subidx(hashval)];
+        auto&      set     = inner.set_;
+        UniqueLock m(inner);
+        auto       it = set.find(key, hashval);
+        return it == set.end() ? node_type() : set.extract(EmbeddedConstIterator(it));
     }
 
     template<class Mtx2_>
-- 
2.43.0

