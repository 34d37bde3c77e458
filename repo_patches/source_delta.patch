From 68d5fbf69008ee8bea1a259975edfef144d7dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/25] verification hook: small allocation blocks under
 LBDD_VERIF_SMALL_POOLS

---
 include/bdd_node_cache.h | 4 ++++
 include/bdd_var.h        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bdd_node_cache.h b/include/bdd_node_cache.h
index e242a2f..6963074 100644
--- a/include/bdd_node_cache.h
+++ b/include/bdd_node_cache.h
@@ -6,7 +6,11 @@
 
 namespace BDD {
 
+#ifdef LBDD_VERIF_SMALL_POOLS // verification builds: small allocation blocks, so that short histories cross their boundaries
+constexpr static std::size_t bdd_node_page_size = LBDD_VERIF_SMALL_POOLS;
+#else
 constexpr static std::size_t bdd_node_page_size = 4096;
+#endif
 
 struct bdd_node_page
 {
diff --git a/include/bdd_var.h b/include/bdd_var.h
index ffc5f76..b7f9aaf 100644
--- a/include/bdd_var.h
+++ b/include/bdd_var.h
@@ -36,7 +36,11 @@ class unique_table_page {
 template<size_t PAGE_SIZE, size_t NR_SIMUL_ALLOC>
 class unique_table_page_cache {
     public:
+#ifdef LBDD_VERIF_SMALL_POOLS // see bdd_node_cache.h
+        constexpr static size_t nr_pages_simultaneous_allocation = NR_SIMUL_ALLOC < 4 ? NR_SIMUL_ALLOC : 4;
+#else
         constexpr static size_t nr_pages_simultaneous_allocation = NR_SIMUL_ALLOC;
+#endif
 
         unique_table_page_cache();
         ~unique_table_page_cache();
-- 
2.43.0


From 1273b6806d559e155b311be0ebc6af5a30c85702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 02/25] fix: keep cached exclusive-or results apart from
 disjunctions

---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 2b817de262c49bb0bd196fd7d9989e5b2bb4477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 03/25] fix: exclusive-or branches on the topmost variable of
 its operands

---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From 3f679f1969441135238821b6c0f78777b827664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/25] fix: if-then-else does not take the children of sinks

---
 src/bdd_mgr.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..bfd2454 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -278,24 +278,22 @@ namespace BDD {
         if(m != nullptr)
             return node_ref(m);
 
-        var& vf = vars[f.variable()];
-        var& vg = g.is_terminal() ? vars.back() : vars[g.variable()];
-        var& vh = h.is_terminal() ? vars.back() : vars[h.variable()];
-
-        //var& v = *std::min({&vf,&vg,&vh}); // compilation error on gcc-8.1?
-        var& v = *std::min(std::min(&vf,&vg),&vh);
+        // the indices of the sinks are larger than those of all variables
+        const size_t top = std::min(std::min(f.variable(), g.variable()), h.variable());
+        assert(top < nr_variables());
+        var& v = vars[top];
 
         node_ref r0 = ite_rec(
-                (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (f.variable() == top ? f.low() : f),
+                (g.variable() == top ? g.low() : g),
+                (h.variable() == top ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
-                (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (f.variable() == top ? f.high() : f),
+                (g.variable() == top ? g.high() : g),
+                (h.variable() == top ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From 439b82768a4fb4b5d517acda7c6f2433ce19dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 05/25] fix: garbage collection keeps the unique tables
 consistent

Removing dead nodes relocated the nodes following them while the table still
contained their old entries, did not free dead nodes met on the way, and
resized tables by scanning without end and into the wrong slots.
---
 src/bdd_var.cpp | 78 +++++++++++++------------------------------------
 1 file changed, 20 insertions(+), 58 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..ce07880 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,76 +204,38 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
+        // take all nodes out of the table, free dead ones
+        std::vector<node*> alive;
+        alive.reserve(hash_table_size() - free);
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                alive.push_back(p);
+            store_node(k, nullptr);
         }
 
-        // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
-        {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
+        // reduce nr of slots if unique table too sparsely populated
+        size_t new_mask = mask;
+        while(new_mask > 63 && alive.size() <= min_unique_table_fill * double(new_mask + 1))
+            new_mask = (new_mask + 1)/2 - 1;
 
+        if(new_mask != mask)
+        {
             node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
         }
+
+        // insert remaining nodes again
+        free = hash_table_size() - alive.size();
+        for(node* p : alive)
+            store_node(next_free_slot(hash_code(p)), p);
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From 832e88231227044b80c61b5642eedb30d16c87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 06/25] fix: cached results do not outlive the nodes they
 mention

Collected nodes have no references (xref 0), not negative ones, and the second
operand of two-operand and the third of three-operand results count as well.
---
 src/bdd_memo_cache.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..b8a8fe2 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,11 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        // called after removal of dead nodes: nodes without references have been freed
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
+        // h is either a node or denotes the operation
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From a744180806822a96567e6491e4a6101baa47c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 07/25] fix: initialize hash key and mark of the sinks

The sinks live in uninitialized memory; a set mark trips the assertions of the
queries on constants and makes traversals skip nothing or everything.
---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..a7229a6 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -118,6 +118,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -132,7 +134,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From 966d790e634ee3b1b77db21e594a90694fed9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 08/25] fix: breadth-first traversal of a constant is empty

---
 src/bdd_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index a7229a6..20ae8ee 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -85,6 +85,9 @@ namespace BDD {
         std::vector<node*> nodes;
         std::deque<node*> dq;
 
+        if(is_terminal())
+            return nodes;
+
         dq.push_back(this);
         this->marked_ = 1;
         while(!dq.empty())
-- 
2.43.0


From 5a25a0b4c66d40ac43ed269be111951c62bf29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/25] fix: unique table pages come from the pool of their
 size

Pages were taken from the pool of the next size and given back to the one of
their own, so pools never got their pages back, and tables could not reach the
largest size although the pool for it exists.
---
 src/bdd_var.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index ce07880..75cbb2f 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -38,21 +38,21 @@ namespace BDD {
     {
         unique_table_page_caches& cache = bdd_mgr_.get_unique_table_page_cache();
         switch(new_mask) {
-            case 63: return reinterpret_cast<node**>(cache.cache_128.reserve_page()); 
-            case 127: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
-            case 255: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
-            case 511: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
-            case 1023: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
-            case 2047: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
-            case 4095: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
-            case 8191: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
-            case 16383: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
-            case 32767: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
-            case 65535: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
-            case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
+            case 63: return reinterpret_cast<node**>(cache.cache_64.reserve_page());
+            case 127: return reinterpret_cast<node**>(cache.cache_128.reserve_page());
+            case 255: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
+            case 511: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
+            case 1023: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
+            case 2047: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
+            case 4095: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
+            case 8191: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
+            case 16383: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
+            case 32767: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
+            case 65535: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
+            case 131071: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
+            case 262143: return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
+            case 524287: return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
             default: assert(false);
         } 
     }
-- 
2.43.0


From db2e6674261791f6da75e094ce1f726f44ccdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 10/25] fix: at most b of fewer than b is always true

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From c7a5cc4a953e500d22e4f0f1fd8e3bddbcfa3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 11/25] fix: size-limited conjunction counts nodes exactly

Nodes shared between the branches were counted twice and new nodes not at all,
and the limit was ignored for trivial cases and taken as inclusive for others.
---
 src/bdd_mgr.cpp | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index bfd2454..fe3d964 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -103,36 +103,31 @@ namespace BDD {
     // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
-        if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
+        auto limited = [node_limit](node_ref r) -> std::tuple<node_ref,size_t> {
+            const size_t nr_nodes = r.nr_nodes();
+            if(nr_nodes >= node_limit)
                return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+            return {r,nr_nodes};
+        };
+
+        if(f == g)
+            return limited(f);
 
         if(f.ref > g.ref)
             return and_rec_limited(g,f,node_limit);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g);
         else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f);
         else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return limited(node_ref(node_cache_.botsink()));
 
         node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
         if(m != nullptr)
-        {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        }
+            return limited(node_ref(m));
 
         var& f_var = vars[f.variable()];
         var& g_var = vars[g.variable()];
@@ -146,19 +141,19 @@ namespace BDD {
         auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
         assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
+        if(r0.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
         assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
         assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
+        if(r1.ref == nullptr)
             return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
         
         node* r = v.unique_find(r0.ref, r1.ref);
         assert(r != nullptr);
         //if(r != nullptr)
         memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        return limited(node_ref(r));
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From 7cb71a8f8fa3195ccdf036e406958ea5979c2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 12/25] fix: rebasing a constant by a sequence

The variables of a constant have no last element.
---
 include/bdd_mgr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..2a00867 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -129,9 +129,9 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
-        const size_t last_var = *std::max_element(var_map_begin, var_map_end);
-        for(size_t i=nr_variables(); i<=last_var; ++i)
+        assert(p.is_terminal() || p.variables().back() < nr_vars);
+        const size_t nr_new_vars = nr_vars > 0 ? *std::max_element(var_map_begin, var_map_end) + 1 : 0;
+        for(size_t i=nr_variables(); i<nr_new_vars; ++i)
             add_variable();
 
         const auto postorder = p.address()->nodes_postorder();
-- 
2.43.0


From 4638961b31ca4182b3c0b4d0cc5eb62d917492f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 13/25] fix: BDDs beyond the first thousand collection nodes
 can be added to a manager

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index fe3d964..d21ac25 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -405,7 +405,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 97efa34fd89de737f3f2b2fa12c0acc6486c6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 14/25] fix: a collection holds constant BDDs

A conjunction with constant result failed an assertion, and so did exporting,
asking for the variables of and removing next to a constant.
---
 include/bdd_collection.h |  2 +-
 src/bdd_collection.cpp   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..07c3ed4 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..abace12 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,8 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            if(root_idx == 0) // result is constant false: the first instruction is the root
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -131,7 +132,8 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                if(root_idx == 0) // result is constant false: the first instruction is the root
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -324,7 +326,10 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_botsink())
+            return mgr.botsink();
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink())
+            return mgr.topsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -535,7 +540,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From 9f6725b857ced70e6c3bd4889712a38d9ce249bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 15/25] fix: constants can be added to a collection

The sinks were looked up through the last decision node, which constants lack.
---
 src/bdd_collection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index abace12..fb4f2e8 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -295,14 +295,17 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        if(root.is_topsink()) // the first instruction is the root
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions.back());
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
-- 
2.43.0


From 2d912d0ba1e8995e1799e17922bd43af59e4c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 16/25] fix: reducing a relaxed BDD in a collection

Arcs to removed nodes were redirected one level only or not at all, nodes that
were no longer reachable stayed, and isomorphic nodes were looked up before
their children had been replaced. Results that become constant are kept with
the constant in front. Does not write to the standard output any more.
---
 src/bdd_collection.cpp | 101 ++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index fb4f2e8..4b7b638 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -460,72 +460,69 @@ namespace BDD {
         assert(nr_bdds() > 0);
         const size_t bdd_nr = nr_bdds() - 1;
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        const size_t begin = bdd_delimiters[bdd_nr];
+        const size_t end = bdd_delimiters[bdd_nr+1];
+        auto is_sink = [](const bdd_instruction& instr) { return instr.is_botsink() || instr.is_topsink(); };
+
+        // Determine for each instruction the one that represents it.
+        // Children come after their parents, hence they are already represented.
+        std::vector<size_t> repr(end - begin);
+        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
+        for(size_t idx=end; idx-- > begin;)
         {
             bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
+            repr[idx - begin] = idx;
+            if(is_sink(instr))
+                continue;
+            instr.lo = repr[instr.lo - begin];
+            instr.hi = repr[instr.hi - begin];
+            if(instr.lo == instr.hi) // node with identical lo and hi arcs
+                repr[idx - begin] = instr.lo;
+            else // isomorphic subgraphs
+                repr[idx - begin] = bdd_map.insert({instr, idx}).first->second;
         }
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        // keep instructions reachable from the root
+        const size_t root = repr[0];
+        std::vector<char> reachable(end - begin, false);
+        reachable[root - begin] = true;
+        for(size_t idx=begin; idx<end; ++idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
+            const bdd_instruction& instr = bdd_instructions[idx];
+            if(!reachable[idx - begin] || is_sink(instr))
                 continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
-            else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
+            reachable[instr.lo - begin] = true;
+            reachable[instr.hi - begin] = true;
+        }
+
+        // compactify: move remaining instructions to contiguous placement, both sinks are kept
+        std::vector<size_t> order;
+        for(size_t idx=begin; idx<end; ++idx)
+            if(reachable[idx - begin] || is_sink(bdd_instructions[idx]))
+                order.push_back(idx);
+        if(order[0] != root) // constant: the root comes first
+        {
+            assert(order.size() == 2 && order[1] == root);
+            std::swap(order[0], order[1]);
         }
+        std::vector<size_t> new_address(end - begin);
+        for(size_t i=0; i<order.size(); ++i)
+            new_address[order[i] - begin] = begin + i;
 
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
         std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
+        new_bdd_instructions.reserve(order.size());
+        for(const size_t idx : order)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
             bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
+            if(!is_sink(instr))
+            {
+                instr.lo = new_address[instr.lo - begin];
+                instr.hi = new_address[instr.hi - begin];
+            }
             new_bdd_instructions.push_back(instr);
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
 
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
+        bdd_instructions.resize(begin);
         for(const auto instr : new_bdd_instructions)
             bdd_instructions.push_back(instr);
         bdd_delimiters.back() = bdd_instructions.size(); 
-- 
2.43.0


From a5f1657ab3c17a8487123c8c2b230dbf096b8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 17/25] fix: sinks of a collection entry are found in either
 order

Conjunction and hand-built BDDs store them the other way round.
---
 src/bdd_collection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 4b7b638..48f5d34 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -646,6 +646,8 @@ namespace BDD {
     bdd_collection_node bdd_collection_entry::botsink() const
     {
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        if(!node.is_botsink()) // sinks may be stored in either order
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
         assert(node.is_botsink());
         return node;
     }
@@ -653,6 +655,8 @@ namespace BDD {
     bdd_collection_node bdd_collection_entry::topsink() const
     {
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        if(!node.is_topsink()) // sinks may be stored in either order
+            node = bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From 28b38fa601a3307dc524d6f1ac8a589e0827bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 18/25] fix: collection nodes outlive the entry they were
 obtained from

They kept a reference to the entry, which usually is a temporary.
---
 include/bdd_collection.h | 56 ++++++++++++++++++++--------------------
 src/bdd_collection.cpp   |  2 +-
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07c3ed4..afd242c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,33 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -85,33 +111,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            const bdd_collection_entry bce; // by value, the entry the node was obtained from may be a temporary
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 48f5d34..9eec166 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -768,7 +768,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From 090782ab33f6d98052bbbca1dd6cc11f4f78d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 19/25] fix: BDDs can be built by hand in a collection

Adding a node failed an assertion as the delimiter of the open BDD did not
advance, arcs to sinks were looked up before the sinks exist, and the arcs of
the last two nodes were not rerouted. A BDD that cannot be closed stays open.
---
 include/bdd_collection.h |  1 +
 src/bdd_collection.cpp   | 34 ++++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index afd242c..4cab527 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -78,6 +78,7 @@ namespace BDD {
             bdd_collection_node topsink() const;
 
         private:
+            bool closed() const; // sinks have been added, see bdd_collection::close_bdd
             const size_t bdd_nr;
             bdd_collection& bdd_col;
     };
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 9eec166..a7c9b26 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -563,40 +563,44 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
     void bdd_collection::close_bdd()
     {
+        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_instructions.size(); ++idx)
+        {
+            if(bdd_instructions[idx].lo == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd lo arc not set");
+            if(bdd_instructions[idx].hi == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd hi arc not set");
+        }
+
         // add top and botsink
         bdd_instructions.push_back(bdd_instruction::topsink());
         bdd_instructions.push_back(bdd_instruction::botsink());
+        bdd_delimiters.back() = bdd_instructions.size();
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
         for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
-            if(instr.lo == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd lo arc not set");
-            else if(instr.lo == bdd_instruction::temp_topsink_index)
+            if(instr.lo == bdd_instruction::temp_topsink_index)
                 instr.lo = bdd_instructions.size()-2;
             else if(instr.lo == bdd_instruction::temp_botsink_index)
                 instr.lo = bdd_instructions.size()-1;
             else
                 assert(instr.lo < bdd_instructions.size() && instr.lo >= bdd_delimiters[bdd_delimiters.size()-2]);
 
-            if(instr.hi == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd hi arc not set");
-            else if(instr.hi == bdd_instruction::temp_topsink_index)
+            if(instr.hi == bdd_instruction::temp_topsink_index)
                 instr.hi = bdd_instructions.size()-2;
             else if(instr.hi == bdd_instruction::temp_botsink_index)
                 instr.hi = bdd_instructions.size()-1;
             else
                 assert(instr.hi < bdd_instructions.size() && instr.hi >= bdd_delimiters[bdd_delimiters.size()-2]); 
         }
-
-        bdd_delimiters.back() = bdd_instructions.size();
     }
 
     //////////////////////////
@@ -661,6 +665,12 @@ namespace BDD {
         return node;
     }
 
+    bool bdd_collection_entry::closed() const
+    {
+        const bdd_instruction& last = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return last.is_botsink() || last.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::operator[](const size_t i) const
     {
         bdd_collection_node node( bdd_col.bdd_delimiters[bdd_nr] + i, *(this));
@@ -727,25 +737,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
-- 
2.43.0


From 1e7b4837e040f725caac207c0d9ac8d79c2f2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 20/25] fix: removing BDDs does not read behind the given
 indices

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 4cab527..bb3af1e 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -266,7 +266,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 677699d3860ecc95987cf13a62460c57ac9d8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 21/25] fix: graph export of constants in a collection

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index bb3af1e..7a9500d 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -483,7 +483,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
-- 
2.43.0


From 109c59039ea645b8dd4fd19157c156530214d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 22/25] fix: negation visits every node once

---
 src/bdd_mgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index d21ac25..1f9a54e 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -46,9 +46,16 @@ namespace BDD {
             return node_ref(node_cache_.botsink());
         else
         {
+            // negation is exclusive-or with the true sink
+            node* m = memo_.cache_lookup(p.ref, node_cache_.topsink(), memo_struct::xor_symb());
+            if(m != nullptr)
+                return node_ref(m);
+
             const std::size_t v = p.variable();
             assert(v < nr_variables());
-            return node_ref(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            node* r = vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref);
+            memo_.cache_insert(p.ref, node_cache_.topsink(), memo_struct::xor_symb(), r);
+            return node_ref(r);
         }
     }
 
-- 
2.43.0


From 2d45b30223b61828b841969eefa9be40edd42d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 23/25] fix: conjunction in a collection visits every pair of
 nodes once

---
 src/bdd_collection.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index a7c9b26..5f3d0e5 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -93,10 +93,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
@@ -266,10 +273,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(bdds, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(bdds, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
-- 
2.43.0


From bc1666ac92aad22945095533cf09048af2500eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:19 +0000
Subject: [PATCH 24/25] fix: hash stored instructions so that neighbouring
 children do not collide

Children of nodes on one level have neighbouring positions, so the
exclusive-or of lo and hi takes few values and conjunction, relaxation and
the consistency check of wide BDDs took time quadratic in their size.
---
 include/bdd_collection.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7a9500d..59d57e4 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -32,7 +32,14 @@ namespace BDD {
     };
 
     struct bdd_instruction_hasher {
-        size_t operator()(const bdd_instruction& bdd) const { return std::hash<size_t>()(bdd.lo) ^ std::hash<size_t>()(bdd.hi) ^ std::hash<size_t>()(bdd.index); }
+        size_t hash_combine(size_t lhs, size_t rhs) const
+        {
+            lhs ^= rhs + 0x9e3779b9 + (lhs << 6) + (lhs >> 2);
+            return lhs;
+        }
+
+        // lo and hi are often close to each other, hence they must not cancel out
+        size_t operator()(const bdd_instruction& bdd) const { return hash_combine(hash_combine(std::hash<size_t>()(bdd.lo), std::hash<size_t>()(bdd.hi)), std::hash<size_t>()(bdd.index)); }
     };
 
     template<size_t N>
-- 
2.43.0


From f1008a005db8d672ae8964f9f297de15a3752954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:49 +0000
Subject: [PATCH 25/25] fix: get_reverse_bdd_instructions returned the
 instructions in forward order

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 59d57e4..5a4ab2b 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -160,7 +160,7 @@ namespace BDD {
             template<typename STREAM>
                 void export_graphviz(const size_t bdd_nr, STREAM& s) const;
             auto get_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
-            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(bdd_instructions.begin() + bdd_delimiters[bdd_nr], bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]); }
+            auto get_reverse_bdd_instructions(const size_t bdd_nr) const { return std::make_pair(std::make_reverse_iterator(bdd_instructions.begin() + bdd_delimiters[bdd_nr+1]), std::make_reverse_iterator(bdd_instructions.begin() + bdd_delimiters[bdd_nr])); }
 
             // for constructing a new bdd
             size_t new_bdd();
-- 
2.43.0

