From 7906a1380552dfb7ce9da5a63003ff878272ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 01/44] sim hook: node collection at any allocation point
 (GRAPHILLION_SIM, off by default)

---
 src/SAPPOROBDD/bddc.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 4b3b2b5..24e9b9d 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -8,6 +8,10 @@
 #include <string.h>
 #include "bddc.h"
 
+#ifdef GRAPHILLION_SIM
+extern "C" int sim_collect_now(void);
+#endif
+
 /* ----------------- MACRO Definitions ---------------- */
 /* Operation IDs in Cache */
 #define BC_NULL        0
@@ -1654,6 +1658,14 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
     }
     /* Node-table enlarged or GC succeeded */
   }
+#ifdef GRAPHILLION_SIM
+  /* Simulation only: collect at any point where the table may be full */
+  else if(sim_collect_now())
+  {
+    bddgc();
+    key = B_HASHKEY(f0, f1, varp->hashSpc);
+  }
+#endif
   NodeUsed++;
 
   /* Creating a new node */
-- 
2.43.0


From 93e61a1d27ae99ef5b642aa5c39f052f6e8eab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 02/44] fix: do not reuse results memoised for node ids after
 the nodes were collected

---
 src/graphillion/zdd.cc | 82 ++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..9d55204 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -46,6 +46,14 @@ using std::vector;
 
 static const string WORD_FMT = "%lld";
 
+// Codes in the operation cache of the ZDD package.  Its entries are
+// discarded when nodes are collected, so a cached result never outlives the
+// nodes it was computed for.
+static const unsigned char CACHE_MINIMAL = 40;
+static const unsigned char CACHE_MAXIMAL = 41;
+static const unsigned char CACHE_NON_SUBSETS = 42;
+static const unsigned char CACHE_NON_SUPERSETS = 43;
+
 static bool initialized_ = false;
 
 // number of elements activated in the ZDD package
@@ -113,29 +121,27 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
 }
 
 zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
-    return i->second;
+  zdd_t c = BDD_CacheZBDD(CACHE_MINIMAL, id(f), id(f));
+  if (c != null()) return c;
   zdd_t rl = minimal(lo(f));
   zdd_t r = minimal(hi(f));
   zdd_t rh = non_supersets(r, rl);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  BDD_CacheEnt(CACHE_MINIMAL, id(f), id(f), id(r));
+  return r;
 }
 
 zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
-    return i->second;
+  zdd_t c = BDD_CacheZBDD(CACHE_MAXIMAL, id(f), id(f));
+  if (c != null()) return c;
   zdd_t r = maximal(lo(f));
   zdd_t rh = maximal(hi(f));
   zdd_t rl = non_subsets(r, rh);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  BDD_CacheEnt(CACHE_MAXIMAL, id(f), id(f), id(r));
+  return r;
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -191,17 +197,14 @@ zdd_t meet(zdd_t f, zdd_t g) {
 }
 
 zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
   if (g == bot())
     return f;
   else if (g == top())
     return f - top();
   else if (f == bot() || f == top() || f == g)
     return bot();
-  pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+  zdd_t c = BDD_CacheZBDD(CACHE_NON_SUBSETS, id(f), id(g));
+  if (c != null()) return c;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
     rl = non_subsets(lo(f), g);
@@ -219,11 +222,11 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
     r2 = lo(g) | hi(g);
     r = non_subsets(f, r2);
   }
-  return cache[k] = r;
+  BDD_CacheEnt(CACHE_NON_SUBSETS, id(f), id(g), id(r));
+  return r;
 }
 
 zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -232,10 +235,8 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     return top();
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
-  pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+  zdd_t c = BDD_CacheZBDD(CACHE_NON_SUPERSETS, id(f), id(g));
+  if (c != null()) return c;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
@@ -250,7 +251,8 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
     rl = non_supersets(lo(f), lo(g));
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  BDD_CacheEnt(CACHE_NON_SUPERSETS, id(f), id(g), id(r));
+  return r;
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -289,7 +291,18 @@ bool choose(zdd_t f, vector<elem_t>* stack) {
   return false;
 }
 
-zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
+// Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
+static double algo_c(zdd_t f, map<word_t, double>* counts) {
+  if (is_term(f))
+    return f == top() ? 1 : 0;
+  map<word_t, double>::const_iterator i = counts->find(id(f));
+  if (i != counts->end())
+    return i->second;
+  return (*counts)[id(f)] = algo_c(hi(f), counts) + algo_c(lo(f), counts);
+}
+
+static zdd_t choose_random(zdd_t f, vector<elem_t>* stack,
+                           map<word_t, double>* counts) {
   assert(stack != NULL);
   if (is_term(f)) {
     if (f == top()) {
@@ -300,16 +313,21 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
     }
     assert(false);
   }
-  double ch = algo_c(hi(f));
-  double cl = algo_c(lo(f));
+  double ch = algo_c(hi(f), counts);
+  double cl = algo_c(lo(f), counts);
   if (rand_xor128() > cl / (ch + cl)) {
     stack->push_back(elem(f));
-    return choose_random(hi(f), stack);
+    return choose_random(hi(f), stack, counts);
   } else {
-    return choose_random(lo(f), stack);
+    return choose_random(lo(f), stack, counts);
   }
 }
 
+zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
+  map<word_t, double> counts;
+  return choose_random(f, stack, &counts);
+}
+
 zdd_t choose_best(zdd_t f, const vector<double>& weights, set<elem_t>* s) {
   assert(s != NULL);
   if (f == bot()) return bot();
@@ -561,15 +579,9 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
   }
 }
 
-// Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
 double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
-  if (is_term(f))
-    return f == top() ? 1 : 0;
-  else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+  map<word_t, double> counts;
+  return algo_c(f, &counts);
 }
 
 static double skip_probability(elem_t e, zdd_t f,
-- 
2.43.0


From 2d87502d56ba434962d05461e65c61ee9703e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 03/44] fix: flip() converts its argument like every other
 method, so a reversed or weighted edge does not become a new element

---
 graphillion/digraphset.py | 2 +-
 graphillion/graphset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..bc85e20 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -983,7 +983,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..abe2e82 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From c7c3091158d655aee7e726036d144af416ac9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 04/44] fix: DiGraphSet search methods of an object pass it as
 graphset

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index bc85e20..a49124e 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From a6c2a7c2af45770096f5440be5c1e9980d482697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 05/44] fix: bfs and dfs traversals of a digraph keep
 antiparallel arcs

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index a49124e..0b27f25 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2117,6 +2117,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From b473f11d61cb6a1bb6427cb80debc92cb83bd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 06/44] fix: steiner_paths() searches the given graphset
 instead of taking it as a terminal

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index abe2e82..47f07c8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2629,7 +2629,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From db199e4ae76b8897c0b31db2201d5f0646837613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 07/44] fix: degree_distribution_graphs() passes the family,
 not its wrapper, to the extension

---
 graphillion/graphset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 47f07c8..b946fdc 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2667,7 +2667,8 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From 246ca88a0dbe7ac78f32fdaef158c51c681d6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 08/44] fix: smaller(0) is empty and set_size(0) finds the
 empty set

---
 src/graphillion/setset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..1ca8b91 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -384,6 +384,7 @@ setset setset::hitting(elem_t num_elems_a) const {  // a.k.a cross elements
 }
 
 setset setset::smaller(size_t set_size) const {
+  if (set_size == 0) return setset();
   return setset(this->zdd_.PermitSym(set_size - 1));
 }
 
@@ -392,7 +393,8 @@ setset setset::larger(size_t set_size) const {
 }
 
 setset setset::set_size(size_t set_size) const {
-  zdd_t z = this->zdd_.PermitSym(set_size) - this->zdd_.PermitSym(set_size - 1);
+  zdd_t z = this->zdd_.PermitSym(set_size);
+  if (set_size > 0) z -= this->zdd_.PermitSym(set_size - 1);
   return setset(z);
 }
 
-- 
2.43.0


From 557ffaac4cb409387d0b50ab587e7431b6fc77ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 09/44] fix: non_supersets() drops the empty set when the
 argument contains it

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 9d55204..b744535 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -232,7 +232,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == bot() || g == top() || f == g)
     return bot();
   else if (f == top())
-    return top();
+    return f - g;
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   zdd_t c = BDD_CacheZBDD(CACHE_NON_SUPERSETS, id(f), id(g));
-- 
2.43.0


From bd4ea4c6299c01934f8f55388795b5277cf98613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 10/44] fix: adding and swapping elements does not reuse
 results memoised for other variables

---
 src/graphillion/reconf.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..22b84b0 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,13 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Key of the variables in the levels from lower to n. Levels must not be used
+// as a key because those of variables change when a new variable is created.
+static bddword cacheKey(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +96,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, cacheKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +118,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, cacheKey(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +136,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, cacheKey(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +162,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, cacheKey(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From 029edf331cdc10794f3eb7af458597d40992d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 11/44] fix: cost_le/cost_ge/cost_eq reject a missing cost as
 documented instead of taking -1

---
 graphillion/setset_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7ffe419..4e9d5c6 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -174,7 +174,7 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-        cs = [-1] * (objtable.num_elems() + 1)
+        cs = [1 << 31] * (objtable.num_elems() + 1)  # out of the range
         for e, c in costs.items():
             i = objtable.obj2int[e]
             cs[i] = c
-- 
2.43.0


From b8cc5900cbe808b80c4c429513d0504ba4cea990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 12/44] fix: costs and iteration weights accept an edge in
 either direction

---
 graphillion/edgevertex_setset.py | 20 +++++++++++++++++++-
 graphillion/graphset.py          | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..0a93d31 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,6 +628,8 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = EdgeVertexSetSet._conv_keys(weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -669,6 +671,8 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = EdgeVertexSetSet._conv_keys(weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
@@ -1375,6 +1379,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = EdgeVertexSetSet._conv_keys(costs)
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,7 +1416,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {e: -cost for e, cost in EdgeVertexSetSet._conv_keys(costs).items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1448,6 +1453,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = EdgeVertexSetSet._conv_keys(costs)
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
@@ -1574,6 +1580,18 @@ class EdgeVertexSetSet(object):
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
+    @staticmethod
+    def _conv_keys(dic):
+        # rewrite an edge in the opposite direction as in the universe
+        ret = {}
+        for ev, val in dic.items():
+            try:
+                ev = EdgeVertexSetSet._conv_edgevertex(ev)
+            except KeyError:
+                pass
+            ret[ev] = val
+        return ret
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index b946fdc..4e45e39 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,6 +725,8 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = GraphSet._conv_keys(weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -765,6 +767,8 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
+        else:
+            weights = GraphSet._conv_keys(weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
             try:
                 yield GraphSet._conv_ret(g)
@@ -1535,6 +1539,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = GraphSet._conv_keys(costs)
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1570,7 +1575,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {e: -cost for e, cost in GraphSet._conv_keys(costs).items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1606,6 +1611,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = GraphSet._conv_keys(costs)
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
@@ -2975,6 +2981,18 @@ class GraphSet(object):
             return (edge[1], edge[0])
         raise KeyError(edge)
 
+    @staticmethod
+    def _conv_keys(dic):
+        # rewrite an edge in the opposite direction as in the universe
+        ret = {}
+        for e, val in dic.items():
+            try:
+                e = GraphSet._conv_edge(e)
+            except KeyError:
+                pass
+            ret[e] = val
+        return ret
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-- 
2.43.0


From 68093db97ad376bd67d8e8100897e4f9eba177d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 13/44] fix: random choice draws from the 32-bit generator of
 the reference, not a biased 64-bit one

---
 src/graphillion/zdd.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index b744535..6140c16 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -27,6 +27,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 //#include <cassert>
 #include <climits>
 
+#include <stdint.h>
 #include <algorithm>
 #include <map>
 #include <string>
@@ -616,15 +617,15 @@ zdd_t zuniq(elem_t v, zdd_t l, zdd_t h) {
 // G. Marsaglia, "Xorshift RNGs," Journal of Statistical Software, vol.8,
 // issue.14, 2003.  http://www.jstatsoft.org/v08/i14/
 double rand_xor128() {
-    static unsigned long x = 123456789, y = 362436069, z = 521288629,
+    static uint32_t x = 123456789, y = 362436069, z = 521288629,
         w = 88675123;
-    unsigned long t;
+    uint32_t t;
     t = (x^(x << 11));
     x = y;
     y = z;
     z = w;
     w = (w^(w >> 19))^(t^(t >> 8));
-    return static_cast<double>(w) / ULONG_MAX;
+    return (w + 0.5) / 4294967296.0;
 }
 
 // max_elem must not be NULL.
-- 
2.43.0


From 8d62723a727fb77387dd0862e778681a0a894ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 14/44] fix: an operation that runs out of node memory raises
 bad_alloc instead of using the null result

---
 src/SAPPOROBDD/ZBDD.h  | 39 ++++++++++++++++++++++++---------------
 src/SAPPOROBDD/bddc.cc | 13 +++++++++++--
 src/graphillion/zdd.cc |  6 ++++--
 3 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/SAPPOROBDD/ZBDD.h b/src/SAPPOROBDD/ZBDD.h
index b9ca621..492300d 100644
--- a/src/SAPPOROBDD/ZBDD.h
+++ b/src/SAPPOROBDD/ZBDD.h
@@ -9,10 +9,19 @@ class ZBDDV;
 #ifndef _ZBDD_
 #define _ZBDD_
 
+#include <new>
+
 #include "BDD.h"
 
 class SeqBDD;
 
+//--- bddnull as the result of an operation means not enough memory ---
+inline bddword BDD_MemChk(bddword f)
+{
+  if(f == bddnull) { BDD_RecurCount = 0; throw std::bad_alloc(); }
+  return f;
+}
+
 class ZBDD
 {
   bddword _zbdd;
@@ -30,43 +39,43 @@ public:
   }
 
   ZBDD& operator&=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddintersec(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddintersec(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator+=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddunion(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddunion(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator-=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddsubtract(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddsubtract(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator<<=(int s)
-    { ZBDD h; h._zbdd = bddlshift(_zbdd, s); return *this = h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddlshift(_zbdd, s)); return *this = h; }
 
   ZBDD& operator>>=(int s)
-    { ZBDD h; h._zbdd = bddrshift(_zbdd, s); return *this = h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddrshift(_zbdd, s)); return *this = h; }
 
   ZBDD& operator*=(const ZBDD&);
   ZBDD& operator/=(const ZBDD&);
   ZBDD& operator%=(const ZBDD&);
 
   ZBDD operator<<(int s) const
-    { ZBDD h; h._zbdd = bddlshift(_zbdd, s); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddlshift(_zbdd, s)); return h; }
 
   ZBDD operator>>(int s) const
-    { ZBDD h; h._zbdd = bddrshift(_zbdd, s); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddrshift(_zbdd, s)); return h; }
 
   int Top(void) const { return bddtop(_zbdd); }
 
   ZBDD OffSet(int v) const
-    { ZBDD h; h._zbdd = bddoffset(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddoffset(_zbdd, v)); return h; }
 
   ZBDD OnSet(int v) const
-    { ZBDD h; h._zbdd = bddonset(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddonset(_zbdd, v)); return h; }
 
   ZBDD OnSet0(int v) const
-    { ZBDD h; h._zbdd = bddonset0(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddonset0(_zbdd, v)); return h; }
 
   ZBDD Change(int v) const
-    { ZBDD h; h._zbdd = bddchange(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddchange(_zbdd, v)); return h; }
 
   bddword GetID(void) const { return _zbdd; }
   bddword Size(void) const { return bddsize(_zbdd); }
@@ -85,7 +94,7 @@ public:
   ZBDD Permit(const ZBDD&) const;
   ZBDD PermitSym(int) const;
   ZBDD Support(void) const
-    { ZBDD h; h._zbdd = bddsupport(_zbdd); return h; }
+    { ZBDD h; h._zbdd = BDD_MemChk(bddsupport(_zbdd)); return h; }
   ZBDD Always(void) const;
 
   int SymChk(int, int) const;
@@ -127,13 +136,13 @@ inline ZBDD BDD_CacheZBDD(char op, bddword fx, bddword gx)
   { return ZBDD_ID(bddcopy(bddrcache(op, fx, gx))); }
 
 inline ZBDD operator&(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddintersec(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(BDD_MemChk(bddintersec(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator+(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddunion(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(BDD_MemChk(bddunion(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator-(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddsubtract(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(BDD_MemChk(bddsubtract(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator%(const ZBDD& f, const ZBDD& p)
   { return f - (f/p) * p; }
diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 24e9b9d..0d786c3 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -1608,6 +1608,7 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
     if(!varp->hash_h8)
     {
       free(varp->hash_32);
+      varp->hash_32 = 0;
       return bddnull;
     }
 #endif
@@ -1644,7 +1645,11 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
   /* Check hash-table overflow */
   if(++ varp->hashUsed >= varp->hashSpc)
   {
-    if(hash_enlarge(v)) return bddnull; /* Hash-table overflow */
+    if(hash_enlarge(v)) /* Hash-table overflow */
+    {
+      varp->hashUsed--;
+      return bddnull;
+    }
     key = B_HASHKEY(f0, f1, varp->hashSpc); /* Enlarge success */
   }
 
@@ -1653,7 +1658,11 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
   {
     if(node_enlarge())
     {
-      if(bddgc()) return bddnull; /* Node-table overflow */
+      if(bddgc()) /* Node-table overflow */
+      {
+        varp->hashUsed--;
+        return bddnull;
+      }
       key = B_HASHKEY(f0, f1, varp->hashSpc);
     }
     /* Node-table enlarged or GC succeeded */
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 6140c16..1e5a879 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -30,6 +30,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <stdint.h>
 #include <algorithm>
 #include <map>
+#include <new>
 #include <string>
 
 namespace graphillion {
@@ -69,7 +70,7 @@ ZBDD operator|(const ZBDD& f, const ZBDD& g) {
 
 void init() {
   if (initialized_) return;
-  BDD_Init(10000, 8000000000LL);
+  if (BDD_Init(10000, 8000000000LL) != 0) throw std::bad_alloc();
   initialized_ = true;
 }
 
@@ -87,8 +88,9 @@ void new_elems(elem_t max_elem) {
   if (!initialized_) init();
   if (num_elems_ < max_elem) num_elems_ = max_elem;
   while (max_elem_ < max_elem) {
-    top().Change(BDD_NewVarOfLev(1));
+    int v = BDD_NewVarOfLev(1);
     num_elems_ = ++max_elem_;
+    top().Change(v);
   }
   assert(num_elems_ <= max_elem_);
   assert(BDD_VarUsed() == max_elem_);
-- 
2.43.0


From 1afb8f58f54ea402ce3fa520708c19ddfa94d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 15/44] fix: the cost table gives back its cached families when
 it is dropped

---
 src/SAPPOROBDD/BDDCT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..a7dea8e 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -35,7 +35,7 @@ public:
     }
     ~CacheEntry(void)
     {
-      if(!_zmap) delete _zmap;
+      if(_zmap) delete _zmap;
     }
   };
 
-- 
2.43.0


From f81bf688b9c08b0764a6707d506ae0c7882e6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 16/44] fix: C++ exceptions become Python exceptions and leave
 objects intact

---
 src/graphillion/setset.cc |   9 +-
 src/pygraphillion.cc      | 519 ++++++++++++++++----------------------
 2 files changed, 228 insertions(+), 300 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 1ca8b91..e3ae819 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -108,8 +108,9 @@ void setset::random_iterator::next() {
     zdd_t z = choose_random(this->zdd_, &stack);
     // Since same sets are rarely selected from very large setset that has more
     // than 1e17 sets, we don't need to remove the selected sets
+    set<elem_t> s(stack.begin(), stack.end());
     if (this->size_ < 1e17) this->zdd_ -= z;
-    this->s_ = set<elem_t>(stack.begin(), stack.end());
+    this->s_.swap(s);
   }
 }
 
@@ -133,7 +134,7 @@ void setset::weighted_iterator::next() {
   } else {
     set<elem_t> s;
     this->zdd_ -= choose_best(this->zdd_, this->weights_, &s);
-    this->s_ = s;
+    this->s_.swap(s);
   }
 }
 
@@ -363,8 +364,10 @@ void setset::flip(elem_t e) {
 }
 
 void setset::flip_all(elem_t num_elems_a) {
+  zdd_t f = this->zdd_;
   for (elem_t e = 1; e <= num_elems_a; ++e)
-    this->zdd_ = this->zdd_.Change(e);
+    f = f.Change(e);
+  this->zdd_ = f;
 }
 
 setset setset::complement(elem_t num_elems_a) const {
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..b114c5e 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -76,29 +76,51 @@ using std::vector;
 #define CHECK_SETSET_OR_ERROR(obj)                              \
   CHECK_OR_ERROR(obj, PySetset_Check, "setset", NULL);
 
+// Reports the C++ exception being handled as a Python exception.
+static void set_python_error() {
+  try {
+    throw;
+  } catch (const std::bad_alloc&) {
+    PyErr_NoMemory();
+  } catch (const std::exception& e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+  } catch (...) {
+    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
+  }
+}
+
+// No C++ exception may reach the interpreter, so that every function called
+// by it is wrapped by GUARD.
+template <typename R> struct ErrorValue { static R get() { return -1; } };
+template <> struct ErrorValue<PyObject*> {
+  static PyObject* get() { return NULL; }
+};
+
+template <typename F, F f> struct Guard;
+template <typename R, typename... Args, R (*f)(Args...)>
+struct Guard<R (*)(Args...), f> {
+  static R call(Args... args) {
+    try {
+      return f(args...);
+    } catch (...) {
+      set_python_error();
+      return ErrorValue<R>::get();
+    }
+  }
+};
+
+#define GUARD(f) (&Guard<decltype(&f), &f>::call)
+
 #define RETURN_NEW_OBJECT(py_type, expr)                         \
   do {                                                           \
+    setset* _ss = new setset(expr);                              \
     PySetsetObject* _ret = reinterpret_cast<PySetsetObject*>(    \
         (py_type)->tp_alloc((py_type), 0));                      \
     if (_ret == NULL) {                                          \
-      PyErr_SetString(PyExc_MemoryError, "Failed to "            \
-      "allocate memory for new setset object");                  \
-      return NULL;                                               \
-    }                                                            \
-    try {                                                        \
-      _ret->ss = new setset(expr);                               \
-    } catch (const std::exception& e) {                          \
-      Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
-      PyErr_SetString(PyExc_RuntimeError, e.what());             \
-      return NULL;                                               \
-    } catch (...) {                                              \
-      Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
-      PyErr_SetString(PyExc_RuntimeError, "Unknown error "       \
-        "occured while creating a new setset");                  \
+      delete _ss;                                                \
       return NULL;                                               \
     }                                                            \
+    _ret->ss = _ss;                                              \
     return reinterpret_cast<PyObject*>(_ret);                    \
   } while (0);
 
@@ -142,7 +164,7 @@ using std::vector;
         return NULL;                                                    \
       }                                                                 \
       PyObject* _newresult                                              \
-          = expr(reinterpret_cast<PySetsetObject*>(_result), _other);   \
+          = GUARD(expr)(reinterpret_cast<PySetsetObject*>(_result), _other); \
       if (_newresult == NULL) {                                         \
         Py_DECREF(_result);                                             \
         return NULL;                                                    \
@@ -302,12 +324,14 @@ typedef struct {
 } PySetsetIterObject;
 
 static PyObject* setsetiter_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
+  setset::iterator* it = new setset::iterator();
   PySetsetIterObject* self;
   self = reinterpret_cast<PySetsetIterObject*>(type->tp_alloc(type, 0));
   if (self == NULL) {
-    PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PysetsetIterObject");
+    delete it;
     return NULL;
   }
+  self->it = it;
   return reinterpret_cast<PyObject*>(self);
 }
 
@@ -326,7 +350,12 @@ static PyObject* setsetiter_next(PySetsetIterObject* self) {
   if (py_set == NULL) {
     return NULL;
   }
-  ++(*self->it);
+  try {
+    ++(*self->it);
+  } catch (...) {
+    Py_DECREF(py_set);
+    throw;
+  }
   return py_set;
 }
 
@@ -362,7 +391,7 @@ static PyTypeObject PySetsetIter_Type = {
   0,                                          /* tp_richcompare */
   0,                                          /* tp_weaklistoffset */
   PyObject_SelfIter,                          /* tp_iter */
-  reinterpret_cast<iternextfunc>(setsetiter_next), /* tp_iternext */
+  reinterpret_cast<iternextfunc>(GUARD(setsetiter_next)), /* tp_iternext */
   setsetiter_methods,                         /* tp_methods */
   0,                                          /* tp_members */
   0,                                          /* tp_getset */
@@ -373,7 +402,7 @@ static PyTypeObject PySetsetIter_Type = {
   0,                                          /* tp_dictoffset */
   0,                                          /* tp_init */
   PyType_GenericAlloc,                        /* tp_alloc */
-  setsetiter_new,                             /* tp_new */
+  GUARD(setsetiter_new),                      /* tp_new */
   0, /* tp_free */
   0, /* tp_is_gc */
   0, /* *tp_bases */
@@ -385,16 +414,21 @@ static PyTypeObject PySetsetIter_Type = {
   0, /* tp_finalize */
 };
 
+// The object takes over the iterator.
+static PyObject* setsetiter_from(setset::iterator* it) {
+  PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
+  if (ssi == NULL) {
+    delete it;
+    return NULL;
+  }
+  ssi->it = it;
+  return reinterpret_cast<PyObject*>(ssi);
+}
+
 // setset
 
 static PyObject* setset_new(PyTypeObject* type, PyObject* /*args*/, PyObject* /*kwds*/) {
-  PySetsetObject* self;
-  self = reinterpret_cast<PySetsetObject*>(type->tp_alloc(type, 0));
-  if (self == NULL) {
-    PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PySetsetObject");
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(self);
+  RETURN_NEW_OBJECT(type, setset());
 }
 
 static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
@@ -403,53 +437,50 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   if (!PyArg_ParseTuple(args, "|Oi", &obj, &num_elems_a))
     return -1;
 
-  try {
-    if (obj == NULL || obj == Py_None) {
-      self->ss = new setset();
-    } else if (PySetset_Check(obj)) {
-      PySetsetObject* sso = reinterpret_cast<PySetsetObject*>(obj);
-      self->ss = new setset(*(sso->ss));
-    } else if (PyList_Check(obj)) {
-      PyObject* i = PyObject_GetIter(obj);
-      if (i == NULL) return -1;
-      vector<set<int> > vs;
-      PyObject* o;
-      while ((o = PyIter_Next(i))) {
-        if (!PyAnySet_Check(o)) {
-          Py_DECREF(o);
-          Py_DECREF(i);
-          PyErr_SetString(PyExc_TypeError, "not set");
-          return -1;
-        }
-        set<int> s;
-        if (setset_parse_set(o, &s) == -1) {
-          Py_DECREF(o);
-          Py_DECREF(i);
-          return -1;
-        }
-        vs.push_back(s);
+  setset ss;
+  if (obj == NULL || obj == Py_None) {
+    // ss is already empty
+  } else if (PySetset_Check(obj)) {
+    PySetsetObject* sso = reinterpret_cast<PySetsetObject*>(obj);
+    ss = *(sso->ss);
+  } else if (PyList_Check(obj)) {
+    PyObject* i = PyObject_GetIter(obj);
+    if (i == NULL) return -1;
+    vector<set<int> > vs;
+    PyObject* o;
+    while ((o = PyIter_Next(i))) {
+      if (!PyAnySet_Check(o)) {
         Py_DECREF(o);
+        Py_DECREF(i);
+        PyErr_SetString(PyExc_TypeError, "not set");
+        return -1;
       }
-      Py_DECREF(i);
-
-      // error occurs in PyIter_Next
-      if (PyErr_Occurred()) {
+      set<int> s;
+      if (setset_parse_set(o, &s) == -1) {
+        Py_DECREF(o);
+        Py_DECREF(i);
         return -1;
       }
+      vs.push_back(s);
+      Py_DECREF(o);
+    }
+    Py_DECREF(i);
 
-      self->ss = new setset(vs);
-    } else if (PyDict_Check(obj)) {
-      map<string, vector<int> > m;
-      if (setset_parse_map(obj, &m) == -1) return -1;
-      self->ss = new setset(m, num_elems_a);
-    } else {
-      PyErr_SetString(PyExc_TypeError, "invalid argument");
+    // error occurs in PyIter_Next
+    if (PyErr_Occurred()) {
       return -1;
     }
-  } catch (...) {
-    PyErr_SetString(PyExc_RuntimeError, "Unexpected error occurred "
-    "during initialization");
+
+    ss = setset(vs);
+  } else if (PyDict_Check(obj)) {
+    map<string, vector<int> > m;
+    if (setset_parse_map(obj, &m) == -1) return -1;
+    ss = setset(m, num_elems_a);
+  } else {
+    PyErr_SetString(PyExc_TypeError, "invalid argument");
+    return -1;
   }
+  *self->ss = ss;
   return 0;
 }
 
@@ -632,55 +663,12 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
 }
 
 static PyObject* setset_iter(PySetsetObject* self) {
-  PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
-  if (ssi == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  try {
-    ssi->it = new setset::iterator(self->ss->begin());
-  } catch (const std::exception& e) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occured "
-      "while creating iterator");
-    return NULL;
-  }
-  if (ssi->it == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(ssi);
+  return setsetiter_from(new setset::iterator(self->ss->begin()));
 }
 
 static PyObject* setset_rand_iter(PySetsetObject* self) {
-  PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
-  if (ssi == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  ssi->it = NULL;
-
-  try {
-    ssi->it = new setset::random_iterator(self->ss->begin_randomly());
-  } catch (const std::exception& e) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occured "
-      "while creating iterator");
-    return NULL;
-  }
-  if (ssi->it == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(ssi);
+  return setsetiter_from(
+      new setset::random_iterator(self->ss->begin_randomly()));
 }
 
 static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
@@ -696,6 +684,8 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     else if (PyLong_Check(eo)) {
       long value = PyLong_AsLong(eo);
       if (PyErr_Occurred()) {
+        Py_DECREF(eo);
+        Py_DECREF(i);
         return NULL;
       }
       w.push_back(static_cast<double>(value));
@@ -714,30 +704,9 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     return NULL;
   }
   Py_DECREF(i);
-  PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
-  if (ssi == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-
-  try {
-    ssi->it = new setset::weighted_iterator(
-        is_maximizing ? self->ss->begin_from_max(w) : self->ss->begin_from_min(w));
-  } catch (const std::exception& e) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    PyObject_Del(ssi);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occured "
-      "while creating iterator");
-    return NULL;
-  }
-  if (ssi->it == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(ssi);
+  return setsetiter_from(new setset::weighted_iterator(
+      is_maximizing ? self->ss->begin_from_max(w)
+                    : self->ss->begin_from_min(w)));
 }
 
 static PyObject* setset_max_iter(PySetsetObject* self, PyObject* weights) {
@@ -776,7 +745,7 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
       PyErr_SetString(PyExc_TypeError, "Failed to parse the set");
       return NULL;
     }
-    self->ss->insert(s);
+    *self->ss |= setset(vector<set<int> >(1, s));
   } else if (PyLong_Check(obj)) {
     int e = PyLong_AsLong(obj);
     if (PyErr_Occurred()) {
@@ -840,28 +809,21 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
 }
 
 static PyObject* setset_pop(PySetsetObject* self) {
+  setset::iterator i = self->ss->begin();
+  if (i == self->ss->end()) {
+    PyErr_SetString(PyExc_KeyError, "'pop' from an empty set");
+    return NULL;
+  }
+  set<int> s = *i;
+  PyObject* result = setset_build_set(s);
+  if (result == NULL) return NULL;
   try {
-    setset::iterator i = self->ss->begin();
-    if (i == self->ss->end()) {
-      PyErr_SetString(PyExc_KeyError, "'pop' from an empty set");
-      return NULL;
-    }
-    set<int> s = *i;
     self->ss->erase(s);
-    PyObject* result = setset_build_set(s);
-    if (result == NULL) {
-      PyErr_SetString(PyExc_RuntimeError, "Failed to build Python set");
-      return NULL;
-    }
-    return result;
-  } catch (const std::exception& e) {
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
   } catch (...) {
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occured "
-      "in setset_pop");
-    return NULL;
+    Py_DECREF(result);
+    throw;
   }
+  return result;
 }
 
 static PyObject* setset_clear(PySetsetObject* self) {
@@ -1214,21 +1176,8 @@ static PyObject* setset_enums(PySetsetObject* self) {
   string prefix = name + "([";
   auto outer_pair = std::make_pair(prefix.c_str(), "])");
   auto inner_pair = std::make_pair("set([", "])");
-  try {
-    self->ss->_enum(sstr, outer_pair, inner_pair);
-  } catch (const std::exception& e) {
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
-  }
-  PyObject* result = PyUnicode_FromString(sstr.str().c_str());
-  if (result == NULL) {
-    PyErr_SetString(PyExc_RuntimeError, "Failed to create Unicode string");
-    return NULL;
-  }
-  return result;
+  self->ss->_enum(sstr, outer_pair, inner_pair);
+  return PyUnicode_FromString(sstr.str().c_str());
 }
 
 static PyObject* setset_repr(PySetsetObject* self) {
@@ -1400,32 +1349,8 @@ static PyObject* setset_to_vss_convert(PySetsetObject* self, PyObject* args, boo
     PyErr_SetString(PyExc_ValueError, "Graph is empty");
     return NULL;
   }
-  PySetsetObject* ret = reinterpret_cast<PySetsetObject*>
-      (PySetset_Type.tp_alloc(&PySetset_Type, 0));
-  if (ret == NULL) {
-    PyErr_SetString(PyExc_MemoryError, "Failed to allocate "
-        "memory for PySetsetObject");
-    return NULL;
-  }
-  try {
-    if (is_evss) {
-      auto ss = self->ss->to_edgevertexsetset_setset(edges);
-      ret->ss = new setset(ss);
-    } else {
-      auto ss = self->ss->to_vertexsetset_setset(edges);
-      ret->ss = new setset(ss);
-    }
-  } catch (const std::exception& e) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
-  }
-
-  return reinterpret_cast<PyObject*>(ret);
+  RETURN_NEW_SETSET(is_evss ? self->ss->to_edgevertexsetset_setset(edges)
+                            : self->ss->to_vertexsetset_setset(edges));
 }
 
 static PyObject* setset_to_vertexsetset(PySetsetObject* self, PyObject* args) {
@@ -1441,97 +1366,97 @@ static PyMemberDef setset_members[] = {
 };
 
 static PyMethodDef setset_methods[] = {
-  {"copy", reinterpret_cast<PyCFunction>(setset_copy), METH_NOARGS, ""},
-  {"invert", reinterpret_cast<PyCFunction>(setset_invert), METH_NOARGS, ""},
-  {"complement", reinterpret_cast<PyCFunction>(setset_complement), METH_O, ""},
-  {"union", reinterpret_cast<PyCFunction>(setset_union_multi), METH_VARARGS, ""},
-  {"update", reinterpret_cast<PyCFunction>(setset_update_multi), METH_VARARGS, ""},
-  {"intersection", reinterpret_cast<PyCFunction>(setset_intersection_multi), METH_VARARGS, ""},
-  {"intersection_update", reinterpret_cast<PyCFunction>(setset_intersection_update_multi), METH_VARARGS, ""},
-  {"difference", reinterpret_cast<PyCFunction>(setset_difference_multi), METH_VARARGS, ""},
-  {"difference_update", reinterpret_cast<PyCFunction>(setset_difference_update_multi), METH_VARARGS, ""},
-  {"symmetric_difference", reinterpret_cast<PyCFunction>(setset_symmetric_difference_multi), METH_VARARGS, ""},
-  {"symmetric_difference_update", reinterpret_cast<PyCFunction>(setset_symmetric_difference_update_multi), METH_VARARGS, ""},
-  {"quotient", reinterpret_cast<PyCFunction>(setset_quotient), METH_O, ""},
-  {"quotient_update", reinterpret_cast<PyCFunction>(setset_quotient_update), METH_O, ""},
-  {"remainder", reinterpret_cast<PyCFunction>(setset_remainder), METH_O, ""},
-  {"remainder_update", reinterpret_cast<PyCFunction>(setset_remainder_update), METH_O, ""},
-  {"isdisjoint", reinterpret_cast<PyCFunction>(setset_isdisjoint), METH_O, ""},
-  {"issubset", reinterpret_cast<PyCFunction>(setset_issubset), METH_O, ""},
-  {"issuperset", reinterpret_cast<PyCFunction>(setset_issuperset), METH_O, ""},
-  {"len", reinterpret_cast<PyCFunction>(setset_len2), METH_VARARGS, ""},
-  {"iter", reinterpret_cast<PyCFunction>(setset_iter), METH_NOARGS, ""},
-  {"rand_iter", reinterpret_cast<PyCFunction>(setset_rand_iter), METH_NOARGS, ""},
-  {"max_iter", reinterpret_cast<PyCFunction>(setset_max_iter), METH_O, ""},
-  {"min_iter", reinterpret_cast<PyCFunction>(setset_min_iter), METH_O, ""},
-  {"add", reinterpret_cast<PyCFunction>(setset_add), METH_O, ""},
-  {"remove", reinterpret_cast<PyCFunction>(setset_remove), METH_O, ""},
-  {"discard", reinterpret_cast<PyCFunction>(setset_discard), METH_O, ""},
-  {"pop", reinterpret_cast<PyCFunction>(setset_pop), METH_NOARGS, ""},
-  {"clear", reinterpret_cast<PyCFunction>(setset_clear), METH_NOARGS, ""},
-  {"minimal", reinterpret_cast<PyCFunction>(setset_minimal), METH_NOARGS, ""},
-  {"maximal", reinterpret_cast<PyCFunction>(setset_maximal), METH_NOARGS, ""},
-  {"hitting", reinterpret_cast<PyCFunction>(setset_hitting), METH_O, ""},
-  {"smaller", reinterpret_cast<PyCFunction>(setset_smaller), METH_O, ""},
-  {"larger", reinterpret_cast<PyCFunction>(setset_larger), METH_O, ""},
-  {"set_size", reinterpret_cast<PyCFunction>(setset_set_size), METH_O, ""},
-  {"flip", reinterpret_cast<PyCFunction>(setset_flip), METH_VARARGS, ""},
-  {"flip_all", reinterpret_cast<PyCFunction>(setset_flip_all), METH_VARARGS, ""},
-  {"join", reinterpret_cast<PyCFunction>(setset_join), METH_O, ""},
-  {"meet", reinterpret_cast<PyCFunction>(setset_meet), METH_O, ""},
-  {"subsets", reinterpret_cast<PyCFunction>(setset_subsets), METH_O, ""},
-  {"supersets", reinterpret_cast<PyCFunction>(setset_supersets), METH_O, ""},
-  {"non_subsets", reinterpret_cast<PyCFunction>(setset_non_subsets), METH_O, ""},
-  {"non_supersets", reinterpret_cast<PyCFunction>(setset_non_supersets), METH_O, ""},
-  {"choice", reinterpret_cast<PyCFunction>(setset_choice), METH_NOARGS, ""},
-  {"probability", reinterpret_cast<PyCFunction>(setset_probability), METH_VARARGS, ""},
-  {"dump", reinterpret_cast<PyCFunction>(setset_dump), METH_O, ""},
-  {"dumps", reinterpret_cast<PyCFunction>(setset_dumps), METH_NOARGS, ""},
-  {"_enum", reinterpret_cast<PyCFunction>(setset_enum), METH_O, ""},
-  {"_enums", reinterpret_cast<PyCFunction>(setset_enums), METH_NOARGS, ""},
-  {"cost_le", reinterpret_cast<PyCFunction>(setset_cost_le), METH_VARARGS | METH_KEYWORDS, ""},
-  {"remove_some_element", reinterpret_cast<PyCFunction>(setset_remove_some_element), METH_NOARGS, ""},
-  {"add_some_element", reinterpret_cast<PyCFunction>(setset_add_some_element), METH_VARARGS, ""},
-  {"remove_add_some_elements", reinterpret_cast<PyCFunction>(setset_remove_add_some_elements), METH_VARARGS, ""},
-  {"to_vertexsetset", reinterpret_cast<PyCFunction>(setset_to_vertexsetset), METH_VARARGS, ""},
-  {"to_edgevertexsetset", reinterpret_cast<PyCFunction>(setset_to_edgevertexsetset), METH_VARARGS, ""},
+  {"copy", reinterpret_cast<PyCFunction>(GUARD(setset_copy)), METH_NOARGS, ""},
+  {"invert", reinterpret_cast<PyCFunction>(GUARD(setset_invert)), METH_NOARGS, ""},
+  {"complement", reinterpret_cast<PyCFunction>(GUARD(setset_complement)), METH_O, ""},
+  {"union", reinterpret_cast<PyCFunction>(GUARD(setset_union_multi)), METH_VARARGS, ""},
+  {"update", reinterpret_cast<PyCFunction>(GUARD(setset_update_multi)), METH_VARARGS, ""},
+  {"intersection", reinterpret_cast<PyCFunction>(GUARD(setset_intersection_multi)), METH_VARARGS, ""},
+  {"intersection_update", reinterpret_cast<PyCFunction>(GUARD(setset_intersection_update_multi)), METH_VARARGS, ""},
+  {"difference", reinterpret_cast<PyCFunction>(GUARD(setset_difference_multi)), METH_VARARGS, ""},
+  {"difference_update", reinterpret_cast<PyCFunction>(GUARD(setset_difference_update_multi)), METH_VARARGS, ""},
+  {"symmetric_difference", reinterpret_cast<PyCFunction>(GUARD(setset_symmetric_difference_multi)), METH_VARARGS, ""},
+  {"symmetric_difference_update", reinterpret_cast<PyCFunction>(GUARD(setset_symmetric_difference_update_multi)), METH_VARARGS, ""},
+  {"quotient", reinterpret_cast<PyCFunction>(GUARD(setset_quotient)), METH_O, ""},
+  {"quotient_update", reinterpret_cast<PyCFunction>(GUARD(setset_quotient_update)), METH_O, ""},
+  {"remainder", reinterpret_cast<PyCFunction>(GUARD(setset_remainder)), METH_O, ""},
+  {"remainder_update", reinterpret_cast<PyCFunction>(GUARD(setset_remainder_update)), METH_O, ""},
+  {"isdisjoint", reinterpret_cast<PyCFunction>(GUARD(setset_isdisjoint)), METH_O, ""},
+  {"issubset", reinterpret_cast<PyCFunction>(GUARD(setset_issubset)), METH_O, ""},
+  {"issuperset", reinterpret_cast<PyCFunction>(GUARD(setset_issuperset)), METH_O, ""},
+  {"len", reinterpret_cast<PyCFunction>(GUARD(setset_len2)), METH_VARARGS, ""},
+  {"iter", reinterpret_cast<PyCFunction>(GUARD(setset_iter)), METH_NOARGS, ""},
+  {"rand_iter", reinterpret_cast<PyCFunction>(GUARD(setset_rand_iter)), METH_NOARGS, ""},
+  {"max_iter", reinterpret_cast<PyCFunction>(GUARD(setset_max_iter)), METH_O, ""},
+  {"min_iter", reinterpret_cast<PyCFunction>(GUARD(setset_min_iter)), METH_O, ""},
+  {"add", reinterpret_cast<PyCFunction>(GUARD(setset_add)), METH_O, ""},
+  {"remove", reinterpret_cast<PyCFunction>(GUARD(setset_remove)), METH_O, ""},
+  {"discard", reinterpret_cast<PyCFunction>(GUARD(setset_discard)), METH_O, ""},
+  {"pop", reinterpret_cast<PyCFunction>(GUARD(setset_pop)), METH_NOARGS, ""},
+  {"clear", reinterpret_cast<PyCFunction>(GUARD(setset_clear)), METH_NOARGS, ""},
+  {"minimal", reinterpret_cast<PyCFunction>(GUARD(setset_minimal)), METH_NOARGS, ""},
+  {"maximal", reinterpret_cast<PyCFunction>(GUARD(setset_maximal)), METH_NOARGS, ""},
+  {"hitting", reinterpret_cast<PyCFunction>(GUARD(setset_hitting)), METH_O, ""},
+  {"smaller", reinterpret_cast<PyCFunction>(GUARD(setset_smaller)), METH_O, ""},
+  {"larger", reinterpret_cast<PyCFunction>(GUARD(setset_larger)), METH_O, ""},
+  {"set_size", reinterpret_cast<PyCFunction>(GUARD(setset_set_size)), METH_O, ""},
+  {"flip", reinterpret_cast<PyCFunction>(GUARD(setset_flip)), METH_VARARGS, ""},
+  {"flip_all", reinterpret_cast<PyCFunction>(GUARD(setset_flip_all)), METH_VARARGS, ""},
+  {"join", reinterpret_cast<PyCFunction>(GUARD(setset_join)), METH_O, ""},
+  {"meet", reinterpret_cast<PyCFunction>(GUARD(setset_meet)), METH_O, ""},
+  {"subsets", reinterpret_cast<PyCFunction>(GUARD(setset_subsets)), METH_O, ""},
+  {"supersets", reinterpret_cast<PyCFunction>(GUARD(setset_supersets)), METH_O, ""},
+  {"non_subsets", reinterpret_cast<PyCFunction>(GUARD(setset_non_subsets)), METH_O, ""},
+  {"non_supersets", reinterpret_cast<PyCFunction>(GUARD(setset_non_supersets)), METH_O, ""},
+  {"choice", reinterpret_cast<PyCFunction>(GUARD(setset_choice)), METH_NOARGS, ""},
+  {"probability", reinterpret_cast<PyCFunction>(GUARD(setset_probability)), METH_VARARGS, ""},
+  {"dump", reinterpret_cast<PyCFunction>(GUARD(setset_dump)), METH_O, ""},
+  {"dumps", reinterpret_cast<PyCFunction>(GUARD(setset_dumps)), METH_NOARGS, ""},
+  {"_enum", reinterpret_cast<PyCFunction>(GUARD(setset_enum)), METH_O, ""},
+  {"_enums", reinterpret_cast<PyCFunction>(GUARD(setset_enums)), METH_NOARGS, ""},
+  {"cost_le", reinterpret_cast<PyCFunction>(GUARD(setset_cost_le)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"remove_some_element", reinterpret_cast<PyCFunction>(GUARD(setset_remove_some_element)), METH_NOARGS, ""},
+  {"add_some_element", reinterpret_cast<PyCFunction>(GUARD(setset_add_some_element)), METH_VARARGS, ""},
+  {"remove_add_some_elements", reinterpret_cast<PyCFunction>(GUARD(setset_remove_add_some_elements)), METH_VARARGS, ""},
+  {"to_vertexsetset", reinterpret_cast<PyCFunction>(GUARD(setset_to_vertexsetset)), METH_VARARGS, ""},
+  {"to_edgevertexsetset", reinterpret_cast<PyCFunction>(GUARD(setset_to_edgevertexsetset)), METH_VARARGS, ""},
   {NULL}  /* Sentinel */
 };
 
 static PyNumberMethods setset_as_number = {
   0,                                  /*nb_add*/
-  reinterpret_cast<binaryfunc>(setset_difference), /*nb_subtract*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_difference)), /*nb_subtract*/
   0,                                  /*nb_multiply*/
-  reinterpret_cast<binaryfunc>(setset_remainder), /*nb_remainder*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_remainder)), /*nb_remainder*/
   0,                                  /*nb_divmod*/
   0,                                  /*nb_power*/
   0,                                  /*nb_negative*/
   0,                                  /*nb_positive*/
   0,                                  /*nb_absolute*/
-  reinterpret_cast<inquiry>(setset_bool), /*nb_nonzero or nb_bool*/
-  reinterpret_cast<unaryfunc>(setset_invert), /*nb_invert*/
+  reinterpret_cast<inquiry>(GUARD(setset_bool)), /*nb_nonzero or nb_bool*/
+  reinterpret_cast<unaryfunc>(GUARD(setset_invert)), /*nb_invert*/
   0,                                  /*nb_lshift*/
   0,                                  /*nb_rshift*/
-  reinterpret_cast<binaryfunc>(setset_intersection), /*nb_and*/
-  reinterpret_cast<binaryfunc>(setset_symmetric_difference), /*nb_xor*/
-  reinterpret_cast<binaryfunc>(setset_union), /*nb_or*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_intersection)), /*nb_and*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_symmetric_difference)), /*nb_xor*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_union)), /*nb_or*/
   0,                                  /*nb_int*/
   0,                                  /*nb_long or *nb_reserved*/
   0,                                  /*nb_float*/
   0,                                  /*nb_inplace_add*/
-  reinterpret_cast<binaryfunc>(setset_difference_update), /*nb_inplace_subtract*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_difference_update)), /*nb_inplace_subtract*/
   0,                                  /*nb_inplace_multiply*/
-  reinterpret_cast<binaryfunc>(setset_remainder_update), /*nb_inplace_remainder*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_remainder_update)), /*nb_inplace_remainder*/
   0,                                  /*nb_inplace_power*/
   0,                                  /*nb_inplace_lshift*/
   0,                                  /*nb_inplace_rshift*/
-  reinterpret_cast<binaryfunc>(setset_intersection_update), /*nb_inplace_and*/
-  reinterpret_cast<binaryfunc>(setset_symmetric_difference_update), /*nb_inplace_xor*/
-  reinterpret_cast<binaryfunc>(setset_update), /*nb_inplace_or*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_intersection_update)), /*nb_inplace_and*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_symmetric_difference_update)), /*nb_inplace_xor*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_update)), /*nb_inplace_or*/
   0, /*nb_floor_divide*/
-  reinterpret_cast<binaryfunc>(setset_quotient), /*nb_true_divide*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_quotient)), /*nb_true_divide*/
   0, /*nb_inplace_floor_divide*/
-  reinterpret_cast<binaryfunc>(setset_quotient_update), /*nb_inplace_true_divide*/
+  reinterpret_cast<binaryfunc>(GUARD(setset_quotient_update)), /*nb_inplace_true_divide*/
   0 /*nb_index*/
 // for 3.5?
 //  0, /*nb_matrix_multiply*/
@@ -1539,14 +1464,14 @@ static PyNumberMethods setset_as_number = {
 };
 
 static PySequenceMethods setset_as_sequence = {
-  setset_len,                         /* sq_length */
+  GUARD(setset_len),                  /* sq_length */
   0,                                  /* sq_concat */
   0,                                  /* sq_repeat */
   0,                                  /* sq_item */
   0,                                  /* sq_slice */
   0,                                  /* sq_ass_item */
   0,                                  /* sq_ass_slice */
-  reinterpret_cast<objobjproc>(setset_contains), /* sq_contains */
+  reinterpret_cast<objobjproc>(GUARD(setset_contains)), /* sq_contains */
 };
 
 PyDoc_STRVAR(setset_doc,
@@ -1568,7 +1493,7 @@ PyTypeObject PySetset_Type = {
   0,                                  /*tp_getattr*/
   0,                                  /*tp_setattr*/
   0,                                  /*tp_reserved at 3.4*/
-  reinterpret_cast<reprfunc>(setset_repr), /*tp_repr*/
+  reinterpret_cast<reprfunc>(GUARD(setset_repr)), /*tp_repr*/
   &setset_as_number,                  /*tp_as_number*/
   &setset_as_sequence,                /*tp_as_sequence*/
   0,                                  /*tp_as_mapping*/
@@ -1582,7 +1507,7 @@ PyTypeObject PySetset_Type = {
   setset_doc,                         /* tp_doc */
   0,		                      /* tp_traverse */
   0,		                      /* tp_clear */
-  reinterpret_cast<richcmpfunc>(setset_richcompare), /* tp_richcompare */
+  reinterpret_cast<richcmpfunc>(GUARD(setset_richcompare)), /* tp_richcompare */
   0,		                      /* tp_weaklistoffset */
   0,                                  /* tp_iter */
   0,                                  /* tp_iternext */
@@ -1594,9 +1519,9 @@ PyTypeObject PySetset_Type = {
   0,                                  /* tp_descr_get */
   0,                                  /* tp_descr_set */
   0,                                  /* tp_dictoffset */
-  reinterpret_cast<initproc>(setset_init), /* tp_init */
+  reinterpret_cast<initproc>(GUARD(setset_init)), /* tp_init */
   PyType_GenericAlloc,                /* tp_alloc */
-  setset_new,                         /* tp_new */
+  GUARD(setset_new),                  /* tp_new */
   0, /* tp_free */
   0, /* tp_is_gc */
   0, /* *tp_bases */
@@ -2936,43 +2861,43 @@ static PyObject* graphset_directed_graphs(PyObject*, PyObject* args,
 }
 
 static PyMethodDef module_methods[] = {
-  {"load", reinterpret_cast<PyCFunction>(setset_load), METH_O, ""},
-  {"loads", reinterpret_cast<PyCFunction>(setset_loads), METH_O, ""},
-  {"_elem_limit", reinterpret_cast<PyCFunction>(setset_elem_limit), METH_NOARGS, ""},
+  {"load", reinterpret_cast<PyCFunction>(GUARD(setset_load)), METH_O, ""},
+  {"loads", reinterpret_cast<PyCFunction>(GUARD(setset_loads)), METH_O, ""},
+  {"_elem_limit", reinterpret_cast<PyCFunction>(GUARD(setset_elem_limit)), METH_NOARGS, ""},
   //{"_num_elems", setset_num_elems, METH_VARARGS, ""},
-  {"_graphs", reinterpret_cast<PyCFunction>(graphset_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_show_messages", reinterpret_cast<PyCFunction>(graphset_show_messages), METH_O, ""},
-  {"_omp_get_max_threads", reinterpret_cast<PyCFunction>(graphset_omp_get_max_threads), METH_NOARGS, ""},
-  {"_omp_get_num_threads", reinterpret_cast<PyCFunction>(graphset_omp_get_num_threads), METH_NOARGS, ""},
-  {"_omp_set_num_threads", reinterpret_cast<PyCFunction>(graphset_omp_set_num_threads), METH_O, ""},
-  {"_omp_get_num_procs", reinterpret_cast<PyCFunction>(graphset_omp_get_num_procs), METH_NOARGS, ""},
-  {"_regular_graphs", reinterpret_cast<PyCFunction>(regular_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_odd_edges_subgraphs", reinterpret_cast<PyCFunction>(odd_edges_subgraphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_degree_distribution_graphs", reinterpret_cast<PyCFunction>(degree_distribution_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_partitions", reinterpret_cast<PyCFunction>(graph_partitions), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_balanced_partitions", reinterpret_cast<PyCFunction>(balanced_partitions), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_induced_graphs", reinterpret_cast<PyCFunction>(induced_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_weighted_induced_graphs", reinterpret_cast<PyCFunction>(weighted_induced_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_forbidden_induced_subgraphs", reinterpret_cast<PyCFunction>(forbidden_induced_subgraphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_chordal_graphs", reinterpret_cast<PyCFunction>(chordal_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_reliability", reinterpret_cast<PyCFunction>(reliability), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_get_vertices_from_top", reinterpret_cast<PyCFunction>(setset_get_vertices_from_top), METH_VARARGS, ""},
+  {"_graphs", reinterpret_cast<PyCFunction>(GUARD(graphset_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_show_messages", reinterpret_cast<PyCFunction>(GUARD(graphset_show_messages)), METH_O, ""},
+  {"_omp_get_max_threads", reinterpret_cast<PyCFunction>(GUARD(graphset_omp_get_max_threads)), METH_NOARGS, ""},
+  {"_omp_get_num_threads", reinterpret_cast<PyCFunction>(GUARD(graphset_omp_get_num_threads)), METH_NOARGS, ""},
+  {"_omp_set_num_threads", reinterpret_cast<PyCFunction>(GUARD(graphset_omp_set_num_threads)), METH_O, ""},
+  {"_omp_get_num_procs", reinterpret_cast<PyCFunction>(GUARD(graphset_omp_get_num_procs)), METH_NOARGS, ""},
+  {"_regular_graphs", reinterpret_cast<PyCFunction>(GUARD(regular_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_odd_edges_subgraphs", reinterpret_cast<PyCFunction>(GUARD(odd_edges_subgraphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_degree_distribution_graphs", reinterpret_cast<PyCFunction>(GUARD(degree_distribution_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_partitions", reinterpret_cast<PyCFunction>(GUARD(graph_partitions)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_balanced_partitions", reinterpret_cast<PyCFunction>(GUARD(balanced_partitions)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_induced_graphs", reinterpret_cast<PyCFunction>(GUARD(induced_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_weighted_induced_graphs", reinterpret_cast<PyCFunction>(GUARD(weighted_induced_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_forbidden_induced_subgraphs", reinterpret_cast<PyCFunction>(GUARD(forbidden_induced_subgraphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_chordal_graphs", reinterpret_cast<PyCFunction>(GUARD(chordal_graphs)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_reliability", reinterpret_cast<PyCFunction>(GUARD(reliability)), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_get_vertices_from_top", reinterpret_cast<PyCFunction>(GUARD(setset_get_vertices_from_top)), METH_VARARGS, ""},
   // directed version
   {"_directed_cycles",
-    reinterpret_cast<PyCFunction>(graphset_directed_cycles),
+    reinterpret_cast<PyCFunction>(GUARD(graphset_directed_cycles)),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_hamiltonian_cycles",
-    reinterpret_cast<PyCFunction>(graphset_directed_hamiltonian_cycles),
+    reinterpret_cast<PyCFunction>(GUARD(graphset_directed_hamiltonian_cycles)),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_st_path",
-    reinterpret_cast<PyCFunction>(graphset_directed_st_path),
+    reinterpret_cast<PyCFunction>(GUARD(graphset_directed_st_path)),
     METH_VARARGS | METH_KEYWORDS, ""},
-  {"_rooted_forests", reinterpret_cast<PyCFunction>(graphset_rooted_forests),
+  {"_rooted_forests", reinterpret_cast<PyCFunction>(GUARD(graphset_rooted_forests)),
     METH_VARARGS | METH_KEYWORDS, ""},
-  {"_rooted_trees", reinterpret_cast<PyCFunction>(graphset_rooted_trees),
+  {"_rooted_trees", reinterpret_cast<PyCFunction>(GUARD(graphset_rooted_trees)),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_graphs",
-    reinterpret_cast<PyCFunction>(graphset_directed_graphs),
+    reinterpret_cast<PyCFunction>(GUARD(graphset_directed_graphs)),
     METH_VARARGS | METH_KEYWORDS, ""},
   {NULL}  /* Sentinel */
 };
-- 
2.43.0


From 5e8a0c744500aaa36ae806f73cd0e4e3d35ebbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 17/44] fix: updating with several operands changes nothing
 when one of them is invalid

---
 src/pygraphillion.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index b114c5e..c04b235 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -175,17 +175,16 @@ struct Guard<R (*)(Args...), f> {
     return _result;                                                     \
   } while (0);
 
-#define UPDATE_FOR_MULTI(self, others, expr)                           \
+// The object changes only after every operand has been applied.
+#define UPDATE_FOR_MULTI(self, others, op)                             \
   do {                                                                 \
-    for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i) {     \
-      PyObject* _other = PyTuple_GET_ITEM(others, _i);                 \
-      if (_other == NULL) {                                            \
-        PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
-        return NULL;                                                   \
-      }                                                                \
-      if (expr(self, _other) == NULL)                                  \
-        return NULL;                                                   \
-    }                                                                  \
+    for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i)       \
+      CHECK_SETSET_OR_ERROR(PyTuple_GET_ITEM(others, _i));             \
+    setset _ss(*self->ss);                                             \
+    for (Py_ssize_t _i = 0; _i < PyTuple_GET_SIZE(others); ++_i)       \
+      _ss op *reinterpret_cast<PySetsetObject*>(                       \
+          PyTuple_GET_ITEM(others, _i))->ss;                           \
+    *self->ss = _ss;                                                   \
     Py_RETURN_NONE;                                                    \
   } while (0);
 
@@ -525,7 +524,7 @@ static PyObject* setset_update(PySetsetObject* self, PyObject* other) {
 }
 
 static PyObject* setset_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_update);
+  UPDATE_FOR_MULTI(self, others, |=);
 }
 
 static PyObject* setset_intersection(PySetsetObject* self, PyObject* other) {
@@ -543,7 +542,7 @@ static PyObject* setset_intersection_update(PySetsetObject* self, PyObject* othe
 }
 
 static PyObject* setset_intersection_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_intersection_update);
+  UPDATE_FOR_MULTI(self, others, &=);
 }
 
 static PyObject* setset_difference(PySetsetObject* self, PyObject* other) {
@@ -561,7 +560,7 @@ static PyObject* setset_difference_update(PySetsetObject* self, PyObject* other)
 }
 
 static PyObject* setset_difference_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_difference_update);
+  UPDATE_FOR_MULTI(self, others, -=);
 }
 
 static PyObject* setset_symmetric_difference(PySetsetObject* self, PyObject* other) {
@@ -579,7 +578,7 @@ static PyObject* setset_symmetric_difference_update(PySetsetObject* self, PyObje
 }
 
 static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self, PyObject* others) {
-  UPDATE_FOR_MULTI(self, others, setset_symmetric_difference_update);
+  UPDATE_FOR_MULTI(self, others, ^=);
 }
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
-- 
2.43.0


From 3126262988e0731a96c30a24a0a15965e6f14721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 18/44] fix: dividing by the empty family raises
 ZeroDivisionError instead of ending the process

---
 src/pygraphillion.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c04b235..af12dd4 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -581,23 +581,35 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
   UPDATE_FOR_MULTI(self, others, ^=);
 }
 
+#define CHECK_DIVISOR_OR_ERROR(obj)                                     \
+  do {                                                                  \
+    if (reinterpret_cast<PySetsetObject*>(obj)->ss->empty()) {          \
+      PyErr_SetString(PyExc_ZeroDivisionError, "division by empty set"); \
+      return NULL;                                                      \
+    }                                                                   \
+  } while (0);
+
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
 
 static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) /= (*_other->ss));
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
 
 static PyObject* setset_remainder_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) %= (*_other->ss));
 }
 
-- 
2.43.0


From 27ae12cc8c183e442af07f2d9745c8e371616073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 19/44] fix: numbers out of range are rejected, not truncated,
 and errors of user iterators are reported

---
 src/pygraphillion.cc | 155 ++++++++++++++++++++++++-------------------
 1 file changed, 87 insertions(+), 68 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index af12dd4..b9e3188 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -212,6 +212,27 @@ static PyObject* setset_build_set(const set<int>& s) {
   return so;
 }
 
+// Both return false with an exception set if the value is out of range.
+static bool parse_int(PyObject* io, int* value) {
+  long v = PyLong_AsLong(io);
+  if (v == -1 && PyErr_Occurred()) return false;
+  if (v < INT_MIN || v > INT_MAX) {
+    PyErr_SetString(PyExc_OverflowError, "int is too large");
+    return false;
+  }
+  *value = static_cast<int>(v);
+  return true;
+}
+
+static bool parse_elem(PyObject* io, int* e) {
+  if (!parse_int(io, e)) return false;
+  if (*e < 1 || *e > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid element");
+    return false;
+  }
+  return true;
+}
+
 static int setset_parse_set(PyObject* so, set<int>* s) {
   assert(s != NULL);
   PyObject* i = PyObject_GetIter(so);
@@ -224,10 +245,10 @@ static int setset_parse_set(PyObject* so, set<int>* s) {
       PyErr_SetString(PyExc_TypeError, "not int set");
       return -1;
     }
-    long value = PyLong_AsLong(eo);
+    int value;
+    bool ok = parse_elem(eo, &value);
     Py_DECREF(eo);
-    // error occurs in PyLong_AsLong
-    if (PyErr_Occurred()) {
+    if (!ok) {
       Py_DECREF(i);
       return -1;
     }
@@ -289,15 +310,13 @@ static int setset_parse_map(PyObject* dict_obj, map<string, vector<int> >* m) {
         PyErr_SetString(PyExc_TypeError, "not int");
         return -1;
       }
-      long value = PyLong_AsLong(eo);
+      int value;
+      bool ok = parse_elem(eo, &value);
       Py_DECREF(eo);
-
-      // error occurs in PyLong_AsLong
-      if (PyErr_Occurred()) {
+      if (!ok) {
         Py_DECREF(i);
         return -1;
       }
-
       v.push_back(value);
     }
     // error occurs in PyIter_Next
@@ -474,6 +493,10 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   } else if (PyDict_Check(obj)) {
     map<string, vector<int> > m;
     if (setset_parse_map(obj, &m) == -1) return -1;
+    if (num_elems_a < 0 || num_elems_a > setset::elem_limit()) {
+      PyErr_SetString(PyExc_ValueError, "invalid number of elements");
+      return -1;
+    }
     ss = setset(m, num_elems_a);
   } else {
     PyErr_SetString(PyExc_TypeError, "invalid argument");
@@ -498,12 +521,10 @@ static PyObject* setset_invert(PySetsetObject* self) {
 
 static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (num_elems_a < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int num_elems_a;
+  if (!parse_int(io, &num_elems_a)) return NULL;
+  if (num_elems_a < 0 || num_elems_a > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid number of elements");
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->complement(num_elems_a));
@@ -662,8 +683,10 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int len;
+    if (!parse_int(obj, &len)) return NULL;
+    if (len < 0) {
+      PyErr_SetString(PyExc_ValueError, "not unsigned int");
       return NULL;
     }
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->set_size(len));
@@ -738,10 +761,8 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     }
     return self->ss->find(s) != self->ss->end() ? 1 : 0;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return -1;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return -1;
     return self->ss->supersets(e) != setset() ? 1 : 0;
   } else {
     PyErr_SetString(PyExc_TypeError, "not set nor int");
@@ -758,10 +779,8 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     }
     *self->ss |= setset(vector<set<int> >(1, s));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     self->ss->insert(e);
   } else {
     PyErr_SetString(PyExc_TypeError, "not set nor int");
@@ -782,10 +801,8 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
       return NULL;
     }
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     if (self->ss->supersets(e).empty()) {
       PyErr_SetString(PyExc_KeyError, "not found");
       return NULL;
@@ -807,10 +824,8 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->erase(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     self->ss->erase(e);
   } else {
     PyErr_SetString(PyExc_TypeError, "not set nor int");
@@ -849,10 +864,8 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg e");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     self->ss->flip(e);
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
@@ -868,11 +881,13 @@ static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg num_elems");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    long num_elems = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int num_elems;
+    if (!parse_int(obj, &num_elems)) return NULL;
+    if (num_elems < 0 || num_elems > setset::max_elem()) {
+      PyErr_SetString(PyExc_ValueError, "invalid number of elements");
       return NULL;
     }
-    self->ss->flip_all(static_cast<int>(num_elems));
+    self->ss->flip_all(num_elems);
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
     return NULL;
@@ -890,12 +905,10 @@ static PyObject* setset_maximal(PySetsetObject* self) {
 
 static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (num_elems_a < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int num_elems_a;
+  if (!parse_int(io, &num_elems_a)) return NULL;
+  if (num_elems_a < 0 || num_elems_a > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid number of elements");
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->hitting(num_elems_a));
@@ -903,10 +916,8 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
+  int set_size;
+  if (!parse_int(io, &set_size)) return NULL;
   if (set_size < 0) {
     PyErr_SetString(PyExc_ValueError, "not unsigned int");
     return NULL;
@@ -916,10 +927,8 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
+  int set_size;
+  if (!parse_int(io, &set_size)) return NULL;
   if (set_size < 0) {
     PyErr_SetString(PyExc_ValueError, "not unsigned int");
     return NULL;
@@ -929,10 +938,8 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
+  int set_size;
+  if (!parse_int(io, &set_size)) return NULL;
   if (set_size < 0) {
     PyErr_SetString(PyExc_ValueError, "not unsigned int");
     return NULL;
@@ -959,10 +966,8 @@ static PyObject* setset_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->supersets(e));
   } else {
     PyErr_SetString(PyExc_TypeError, "not setset nor int");
@@ -979,10 +984,8 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->non_supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int e;
+    if (!parse_elem(obj, &e)) return NULL;
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->non_supersets(e));
   } else {
     PyErr_SetString(PyExc_TypeError, "not setset nor int");
@@ -1045,6 +1048,8 @@ static PyObject* setset_probability(PySetsetObject* self,
     Py_DECREF(eo);
   }
   Py_DECREF(i);
+  // error occurs in PyIter_Next
+  if (PyErr_Occurred()) return NULL;
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
 }
 
@@ -1258,13 +1263,14 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   PyObject* cost;
   while ((cost = PyIter_Next(cost_iter))) {
     if (PyLong_Check(cost)) {
-      long value = PyLong_AsLong(cost);
+      int value;
+      bool ok = parse_int(cost, &value);
       Py_DECREF(cost);
-      if (PyErr_Occurred()) {
+      if (!ok) {
         Py_DECREF(cost_iter);
         return NULL;
       }
-      costs.push_back(static_cast<int>(value));
+      costs.push_back(value);
     } else {
       Py_DECREF(cost);
       Py_DECREF(cost_iter);
@@ -1273,6 +1279,19 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
     }
   }
   Py_DECREF(cost_iter);
+  // error occurs in PyIter_Next
+  if (PyErr_Occurred()) return NULL;
+
+  // No total, accepted or not, may go beyond the range of bddcost.
+  long long cost_min = 0, cost_max = 0;
+  for (size_t i = 0; i < costs.size(); ++i)
+    (costs[i] < 0 ? cost_min : cost_max) += costs[i];
+  if (cost_max - cost_min >= INT_MAX) {
+    PyErr_SetString(PyExc_OverflowError, "costs are too large");
+    return NULL;
+  }
+  if (cost_bound > cost_max) cost_bound = static_cast<bddcost>(cost_max);
+  if (cost_bound < cost_min) cost_bound = static_cast<bddcost>(cost_min - 1);
 
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->cost_le(costs, cost_bound));
 }
-- 
2.43.0


From ca59a5c1e6c0ed0a7b64b373291e2229ca917212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 20/44] fix: graph arguments are checked completely and their
 references given back

---
 src/pygraphillion.cc | 101 +++++++++++++++++++++++++++++--------------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index b9e3188..c5c9208 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1605,7 +1605,15 @@ static bool translate_graph(PyObject* graph_obj,
         PyErr_SetString(PyExc_TypeError, "invalid graph");
         return false;
       }
-      string v = PyBytes_Check(vo) ? PyBytes_AsString(vo) : PyUnicode_AsUTF8(vo);
+      const char* v_cstr =
+          PyBytes_Check(vo) ? PyBytes_AsString(vo) : PyUnicode_AsUTF8(vo);
+      if (v_cstr == NULL) {
+        Py_DECREF(vo);
+        Py_DECREF(j);
+        Py_DECREF(i);
+        return false;
+      }
+      string v = v_cstr;
       Py_DECREF(vo);
       if (v.find(',') != string::npos) {
         Py_DECREF(j);
@@ -1616,6 +1624,10 @@ static bool translate_graph(PyObject* graph_obj,
       e.push_back(v);
     }
     Py_DECREF(j);
+    if (PyErr_Occurred()) { // check the error of PyIter_Next(j)
+      Py_DECREF(i);
+      return false;
+    }
 
     if (e.size() != 2) {
       Py_DECREF(i);
@@ -1626,6 +1638,9 @@ static bool translate_graph(PyObject* graph_obj,
     graph.push_back(make_pair(e[0], e[1]));
   }
   Py_DECREF(i);
+  if (PyErr_Occurred()) { // check the error of PyIter_Next(i)
+    return false;
+  }
   return true;
 }
 
@@ -1637,6 +1652,7 @@ static bool get_string_from_sequence(PyObject* obj, int index, string* str) {
   }
   if (!PyBytes_Check(i)) {
     Py_DECREF(i);
+    PyErr_SetString(PyExc_TypeError, "invalid vertex in linear constraints");
     return false;
   }
   const char* s = PyBytes_AsString(i);
@@ -1644,8 +1660,8 @@ static bool get_string_from_sequence(PyObject* obj, int index, string* str) {
     Py_DECREF(i);
     return false;
   }
-  Py_DECREF(i);
   *str = string(s);
+  Py_DECREF(i);
   return true;
 }
 
@@ -1751,6 +1767,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
   map<string, Range>* degree_constraints = NULL;
   if (degree_constraints_obj != NULL && degree_constraints_obj != Py_None) {
     degree_constraints = &degree_constraints_entity;
+    if (!PyDict_Check(degree_constraints_obj)) {
+      PyErr_SetString(PyExc_TypeError, "degree constraints must be a dictionary");
+      return NULL;
+    }
     PyObject* vo;
     PyObject* lo;
     Py_ssize_t pos = 0;
@@ -1776,9 +1796,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
           PyErr_SetString(PyExc_TypeError, "invalid degree in degree constraints");
           return NULL;
         }
-        long value = PyLong_AsLong(io);
+        int value;
+        bool ok = parse_int(io, &value);
         Py_DECREF(io);
-        if (PyErr_Occurred()) {
+        if (!ok) {
           Py_DECREF(i);
           return NULL;
         }
@@ -1812,9 +1833,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_TypeError, "invalid number of edges");
         return NULL;
       }
-      long value = PyLong_AsLong(io);
+      int value;
+      bool ok = parse_int(io, &value);
       Py_DECREF(io);
-      if (PyErr_Occurred()) {
+      if (!ok) {
         Py_DECREF(i);
         return NULL;
       }
@@ -1833,8 +1855,10 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
   }
 
   setset* search_space = NULL;
-  if (search_space_obj != NULL && search_space_obj != Py_None)
+  if (search_space_obj != NULL && search_space_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(search_space_obj);
     search_space = reinterpret_cast<PySetsetObject*>(search_space_obj)->ss;
+  }
 
   vector<linear_constraint_t> linear_constraints_entity;
   vector<linear_constraint_t>* linear_constraints = NULL;
@@ -1870,9 +1894,11 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
             || !get_double_from_sequence(eo, 2, &w)) {
           Py_DECREF(eo);
           Py_DECREF(j);
+          Py_DECREF(co);
           Py_DECREF(i);
           return NULL;
         }
+        Py_DECREF(eo);
         /*PyObject* uo = PySequence_GetItem(eo, 0);
         string u = PyBytes_AsString(uo);
         PyObject* vo = PySequence_GetItem(eo, 1);
@@ -1950,7 +1976,12 @@ static PyObject* graphset_omp_set_num_threads(PyObject*, PyObject* obj) {
     PyErr_SetString(PyExc_TypeError, "not an integer");
     return NULL;
   }
-  long value = PyLong_AsLong(obj);
+  int value;
+  if (!parse_int(obj, &value)) return NULL;
+  if (value <= 0) {
+    PyErr_SetString(PyExc_ValueError, "not a positive integer");
+    return NULL;
+  }
   omp_set_num_threads(value);
 #endif
   Py_RETURN_NONE;
@@ -1988,10 +2019,8 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int d;
+    if (!parse_int(degree_obj, &d)) return NULL;
     degree_lower = d;
     degree_upper = d;
   } else if (PyTuple_Check(degree_obj)) {
@@ -2002,20 +2031,14 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
-      if (PyErr_Occurred()) {
-        return NULL;
-      }
+      if (!parse_int(lower_obj, &degree_lower)) return NULL;
     } else {
       PyErr_SetString(PyExc_TypeError, "degree lower must be integer");
       return NULL;
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
-      if (PyErr_Occurred()) {
-        return NULL;
-      }
+      if (!parse_int(upper_obj, &degree_upper)) return NULL;
     } else {
       PyErr_SetString(PyExc_TypeError, "degree upper must be an integer");
       return NULL;
@@ -2033,6 +2056,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
@@ -2101,19 +2125,15 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int k;
+    if (!parse_int(key, &k)) return NULL;
     if (k < 0) {
       PyErr_SetString(PyExc_ValueError, "degree distribution keys "
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
-    if (PyErr_Occurred()) {
-      return NULL;
-    }
+    int v;
+    if (!parse_int(value, &v)) return NULL;
     if (static_cast<int>(deg_ranges.size()) <= k) {
       deg_ranges.resize(k + 1);
     }
@@ -2127,6 +2147,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    CHECK_SETSET_OR_ERROR(graphset_obj);
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
@@ -2477,6 +2498,9 @@ static PyObject* reliability(PyObject*, PyObject* args, PyObject* kwds) {
 
 static PyObject* setset_get_vertices_from_top(PySetsetObject* self, PyObject* args) {
   std::vector<std::vector<std::string>> edges = parse_args_to_edges(args);
+  if (PyErr_Occurred()) {
+    return NULL;
+  }
   std::vector<std::string> v_order_from_top = VariableConverter::get_vertices_from_top(edges);
   int n = static_cast<int>(v_order_from_top.size());
   PyObject* ret = PyList_New(n);
@@ -2512,7 +2536,10 @@ bool input_graph(PyObject* graph_obj,
   while ((eo = PyIter_Next(i))) {
     PyObject* j = PyObject_GetIter(eo);
     Py_DECREF(eo);
-    if (j == NULL) return false;
+    if (j == NULL) {
+      Py_DECREF(i);
+      return false;
+    }
     std::vector<std::string> e;
     PyObject* vo;
     while ((vo = PyIter_Next(j))) {
@@ -2535,6 +2562,7 @@ bool input_graph(PyObject* graph_obj,
     }
     Py_DECREF(j);
     if (PyErr_Occurred()) {
+      Py_DECREF(i);
       return false;
     }
     if (e.size() != 2) {
@@ -2578,11 +2606,18 @@ bool input_string_list(PyObject* list_obj, std::vector<std::string>& list) {
     list.push_back(v);
   }
   Py_DECREF(i);
+  if (PyErr_Occurred()) {
+    return false;
+  }
   return true;
 }
 
 bool input_vertex_to_range_map(
     PyObject* map_obj, std::map<std::string, Range>& mp) {
+  if (!PyDict_Check(map_obj)) {
+    PyErr_SetString(PyExc_TypeError, "invalid map object");
+    return false;
+  }
   PyObject* vo;
   PyObject* lo;
   Py_ssize_t pos = 0;
@@ -2603,8 +2638,10 @@ bool input_vertex_to_range_map(
         PyErr_SetString(PyExc_TypeError, "invalid degree in map object");
         return false;
       }
-      long value = PyLong_AsLong(io);
-      if (PyErr_Occurred()) {
+      int value;
+      bool ok = parse_int(io, &value);
+      Py_DECREF(io);
+      if (!ok) {
         Py_DECREF(i);
         return false;
       }
@@ -2754,7 +2791,7 @@ static PyObject* graphset_rooted_forests(PyObject*, PyObject* args,
   PyObject* graph_obj = NULL;
   PyObject* roots_obj = NULL;
   PyObject* search_space_obj = NULL;
-  int is_spanning;
+  int is_spanning = false;
   if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OpO", kwlist, &graph_obj,
                                    &roots_obj, &is_spanning, &search_space_obj))
     return NULL;
-- 
2.43.0


From 65420bde9975476fd5e6bb3229af837f3c26181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 21/44] fix: dump reports write errors, load rejects damaged
 dumps, both keep the interpreter lock while using families

---
 src/graphillion/zdd.cc | 140 +++++++++++++++++++-------------
 src/graphillion/zdd.h  |   1 +
 src/pygraphillion.cc   | 178 +++++++++++++++++++++--------------------
 3 files changed, 178 insertions(+), 141 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 1e5a879..1aebba8 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -25,12 +25,17 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/zdd.h"
 
 //#include <cassert>
+#include <cerrno>
 #include <climits>
+#include <cstdlib>
+#include <cstring>
 
 #include <stdint.h>
 #include <algorithm>
 #include <map>
 #include <new>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 
 namespace graphillion {
@@ -409,69 +414,94 @@ void dump(zdd_t f, FILE* fp) {
   fprintf(fp, ".\n");
 }
 
+static void malformed() {
+  throw std::runtime_error("malformed or truncated dump");
+}
+
+// Returns the id written in a dump; terminals are represented by letters.
+static word_t dumped_id(const char* s) {
+  if (strcmp(s, "B") == 0) return id(bot());
+  if (strcmp(s, "T") == 0) return id(top());
+  char* end;
+  errno = 0;
+  long long k = strtoll(s, &end, 10);
+  if (end == s || *end != '\0' || errno != 0) malformed();
+  return k;
+}
+
+struct dumped_node { word_t k; elem_t v; word_t l, h; };
+
 zdd_t load(istream& in) {
+  // Check the whole dump before making any element or node.
+  vector<dumped_node> nodes;
+  map<word_t, elem_t> elems;
+  elems[id(bot())] = elems[id(top())] = elem_limit() + 1;
+  bool terminated = false;
+  word_t root = 0;
+  bool has_root = false;
   string line;
-  getline(in, line);
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
+  while (getline(in, line)) {
+    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
+    if (line[0] == '.') {
+      terminated = true;
+      break;
+    }
+    if ((line[0] == 'B' || line[0] == 'T') && is_space(line.substr(1))) {
+      if (has_root) malformed();
+      root = id(line[0] == 'B' ? bot() : top());
+      has_root = true;
+      continue;
+    }
+    if (has_root && nodes.empty()) malformed();
+    dumped_node n;
+    char sl[32], sh[32], rest[2];
+    int num = sscanf(line.c_str(), (WORD_FMT + " %d %31s %31s %1s").c_str(),
+                     &n.k, &n.v, sl, sh, rest);
+    if (num != 4) malformed();
+    n.l = dumped_id(sl);
+    n.h = dumped_id(sh);
+    map<word_t, elem_t>::const_iterator l = elems.find(n.l);
+    map<word_t, elem_t>::const_iterator h = elems.find(n.h);
+    if (l == elems.end() || h == elems.end()) malformed();
+    if (n.v < 1 || l->second <= n.v || h->second <= n.v) malformed();
+    if (!elems.insert(std::make_pair(n.k, n.v)).second) malformed();
+    nodes.push_back(n);
+    root = n.k;
+    has_root = true;
+  }
+  if (!has_root || in.bad()) malformed();
+  if (!nodes.empty() && !terminated) malformed();
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
-  zdd_t root;
-  do {
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) goto error;
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) goto error;
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (getline(in, line));
-  return root;
-error:
-  in.setstate(in.badbit);
-  return null();
+  for (size_t i = 0; i < nodes.size(); ++i)
+    n[nodes[i].k] = n.at(nodes[i].l) + single(nodes[i].v) * n.at(nodes[i].h);
+  return n.at(root);
+}
+
+// Reads a dump up to its end mark.  Returns false if it could not be read;
+// after an interrupt, reading can be resumed with the same string.
+bool read_dump(FILE* fp, string* s) {
+  static const size_t MAX_LINE = 1024;
+  size_t start = s->rfind('\n') + 1;
+  int c;
+  while ((c = getc(fp)) != EOF) {
+    s->push_back(c);
+    if (c == '\n') {
+      if ((*s)[start] == '.') return true;
+      start = s->size();
+    } else if (s->size() - start > MAX_LINE) {
+      malformed();
+    }
+  }
+  return !ferror(fp);
 }
 
 zdd_t load(FILE* fp) {
-  char buf[256];
-  if (fgets(buf, sizeof(buf), fp) == NULL) return null();
-  string line = buf;
-  if      (line[0] == 'B' && (line.length() == 1 || is_space(line.substr(1)))) return bot();
-  else if (line[0] == 'T' && (line.length() == 1 || is_space(line.substr(1)))) return top();
-  map<word_t, zdd_t> n;
-  n[id(bot())] = bot();
-  n[id(top())] = top();
-  zdd_t root;
-  do {
-    line = string(buf);
-    if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) return null();
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) return null();
-    n[k] = root = n.at(l) + single(v) * n.at(h);
-  } while (fgets(buf, sizeof(buf), fp) != NULL);
-  return root;
+  string s;
+  if (!read_dump(fp, &s)) throw std::runtime_error("failed to read a dump");
+  std::istringstream in(s);
+  return load(in);
 }
 
 void _enum(zdd_t f, ostream& out,
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index ab711a0..53b1024 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -81,6 +81,7 @@ void dump(zdd_t f, std::ostream& out);
 void dump(zdd_t f, FILE* fp = stdout);
 zdd_t load(std::istream& in);
 zdd_t load(FILE* fp = stdin);
+bool read_dump(FILE* fp, std::string* s);
 void _enum(zdd_t f, std::ostream& out,
            const std::pair<const char*, const char*>& outer_braces,
            const std::pair<const char*, const char*>& inner_braces);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c5c9208..34fcdb6 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -30,10 +30,18 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/partition/BalancedPartition.h"
 #include "pygraphillion.h"
 
+#ifdef _WIN32
+#include <io.h>
+#else
+#include <unistd.h>
+#endif
+
+#include <cerrno>
 #include <cstdlib>
 #include <climits>
 
 #include <algorithm>
+#include <exception>
 #include <map>
 #include <set>
 #include <string>
@@ -42,6 +50,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <limits>
 
 #include "graphillion/graphset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/reliability/reliability.h"
 #include "graphillion/regular/RegularGraphs.h"
 #include "graphillion/induced_graphs/InducedGraphs.h"
@@ -1053,137 +1062,134 @@ static PyObject* setset_probability(PySetsetObject* self,
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
 }
 
-static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
+// Writes `s` completely, without holding up other threads.
+static PyObject* write_to_file(PyObject* obj, const string& s) {
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
     return NULL;
   }
-  FILE* fp = fdopen(dup(fd), "w");
-  if (fp == NULL) {
+  fd = dup(fd);  // other threads may close the file in the meantime
+  if (fd == -1) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
-  Py_BEGIN_ALLOW_THREADS;
-  self->ss->dump(fp);
-  Py_END_ALLOW_THREADS;
-  if (fclose(fp) != 0) {
+  size_t done = 0;
+  while (done < s.size()) {
+    ssize_t n;
+    Py_BEGIN_ALLOW_THREADS;
+    n = write(fd, s.data() + done, s.size() - done);
+    Py_END_ALLOW_THREADS;
+    if (n >= 0) {
+      done += n;
+    } else if (errno != EINTR) {
+      PyErr_SetFromErrno(PyExc_OSError);
+      break;
+    } else if (PyErr_CheckSignals() != 0) {
+      break;
+    }
+  }
+  int closed = close(fd);
+  if (done < s.size()) {
+    return NULL;
+  }
+  if (closed != 0 && errno != EINTR) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
   Py_RETURN_NONE;
 }
 
+static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
+  stringstream sstr;
+  self->ss->dump(sstr);
+  return write_to_file(obj, sstr.str());
+}
+
 static PyObject* setset_dumps(PySetsetObject* self) {
   stringstream sstr;
   self->ss->dump(sstr);
   return PyUnicode_FromString(sstr.str().c_str());
 }
 
-static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
+// Reads a dump without holding up other threads.
+static bool read_from_file(PyObject* obj, string* s) {
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
-    return NULL;
+    return false;
   }
-  FILE* fp = fdopen(dup(fd), "r");
-  if (fp == NULL) {
+  fd = dup(fd);  // other threads may close the file in the meantime
+  if (fd == -1) {
     PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
+    return false;
   }
-  PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
-      PySetset_Type.tp_alloc(&PySetset_Type, 0));
-  if (ret == NULL) {
-    fclose(fp);
-    PyErr_NoMemory();
-    return NULL;
+  FILE* fp = fdopen(fd, "r");
+  if (fp == NULL) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    close(fd);
+    return false;
   }
-  try {
-    setset* loaded_ss;
+  while (true) {
+    bool read = false;
+    int error = 0;
+    std::exception_ptr exception;
     Py_BEGIN_ALLOW_THREADS;
-    loaded_ss = new setset(setset::load(fp));
+    try {
+      read = graphillion::read_dump(fp, s);
+      error = errno;
+    } catch (...) {
+      exception = std::current_exception();
+    }
     Py_END_ALLOW_THREADS;
-    ret->ss = loaded_ss;
-  } catch (const std::exception& e) {
-    Py_DECREF(ret);
-    fclose(fp);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    Py_DECREF(ret);
+    if (exception) {
+      fclose(fp);
+      std::rethrow_exception(exception);
+    }
+    if (read) break;
+    if (error == EINTR && PyErr_CheckSignals() == 0) {
+      clearerr(fp);
+      continue;
+    }
+    if (!PyErr_Occurred()) {
+      errno = error;
+      PyErr_SetFromErrno(PyExc_OSError);
+    }
     fclose(fp);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
+    return false;
   }
-
-  if (fclose(fp) != 0) {
+  fflush(fp);  // give back what follows the dump
+  if (fclose(fp) != 0 && errno != EINTR) {
     PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
+    return false;
   }
-  return reinterpret_cast<PyObject*>(ret);
+  return true;
+}
+
+static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
+  string s;
+  if (!read_from_file(obj, &s)) return NULL;
+  stringstream sstr(s);
+  RETURN_NEW_SETSET(setset::load(sstr));
 }
 
 static PyObject* setset_loads(PySetsetObject* self, PyObject* obj) {
   CHECK_OR_ERROR(obj, PyUnicode_Check, "str", NULL);
-  const char* utf8_str = PyUnicode_AsUTF8(obj);
+  Py_ssize_t size;
+  const char* utf8_str = PyUnicode_AsUTF8AndSize(obj, &size);
   if (utf8_str == NULL) {
     return NULL;
   }
-  stringstream sstr(utf8_str);
-  PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
-      PySetset_Type.tp_alloc(&PySetset_Type, 0));
-  if (ret == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  try {
-    ret->ss = new setset(setset::load(sstr));
-  } catch (const std::exception& e) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(ret);
+  stringstream sstr(string(utf8_str, size));
+  RETURN_NEW_SETSET(setset::load(sstr));
 }
 
 static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
-  int fd = PyObject_AsFileDescriptor(obj);
-  if (fd == -1) {
-    return NULL;
-  }
-  FILE* fp = fdopen(fd, "r");
-  if (fp == NULL) {
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
+  stringstream sstr;
   string name = Py_TYPE(self)->tp_name;
   string prefix = name + "([";
   auto outer_pair = std::make_pair(prefix.c_str(), "])");
   auto inner_pair = std::make_pair("set([", "])");
-  try {
-    Py_BEGIN_ALLOW_THREADS;
-    self->ss->_enum(fp, outer_pair, inner_pair);
-    Py_END_ALLOW_THREADS;
-  } catch (const std::exception& e) {
-    fclose(fp);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    fclose(fp);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
-  }
-
-  if (fclose(fp) != 0) {
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
-  Py_RETURN_NONE;
+  self->ss->_enum(sstr, outer_pair, inner_pair);
+  return write_to_file(obj, sstr.str());
 }
 
 static PyObject* setset_enums(PySetsetObject* self) {
-- 
2.43.0


From 44e2d02124b331754f29fb61251eb6e25f417f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 22/44] fix: set_universe, remove(vertex) and bicliques(a, b)
 change nothing when they fail

---
 graphillion/digraphset.py |  7 +++++--
 graphillion/graphset.py   |  6 ++++--
 graphillion/setset.py     |  3 ++-
 graphillion/universe.py   | 26 ++++++++++++++++++++++++--
 4 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 0b27f25..784e2f1 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, unchanged_on_error
 from graphillion.setset_base import setset_base
 import pickle
 import heapq
@@ -870,8 +870,10 @@ class DiGraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(DiGraphSet._objtable, obj)
         elif type == 'vertex':
+            gs = self.copy()
             for edge in obj:
-                self.remove(edge)
+                gs.remove(edge)
+            self._ss = gs._ss
         else:
             raise TypeError(obj)
         return None
@@ -1732,6 +1734,7 @@ class DiGraphSet(object):
         return DiGraphSet(setset_base.loads(s))
 
     @staticmethod
+    @unchanged_on_error(lambda: DiGraphSet, '_vertices', '_weights', '_objtable')
     def set_universe(universe, traversal='greedy', source=None):
         """Registers the new universe.
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4e45e39..cb990bf 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -885,8 +885,10 @@ class GraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(Universe.e_objtable, obj)
         elif type == 'vertex':
+            gs = self.copy()
             for edge in obj:
-                self.remove(edge)
+                gs.remove(edge)
+            self._ss = gs._ss
         else:
             raise TypeError(obj)
         return None
@@ -2075,7 +2077,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
diff --git a/graphillion/setset.py b/graphillion/setset.py
index 9e903df..9ee6a62 100644
--- a/graphillion/setset.py
+++ b/graphillion/setset.py
@@ -21,7 +21,7 @@
 """
 
 from graphillion.setset_base import setset_base
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, unchanged_on_error
 import _graphillion
 
 class setset(setset_base):
@@ -182,6 +182,7 @@ class setset(setset_base):
         return setset(_graphillion.loads(s))
 
     @staticmethod
+    @unchanged_on_error(lambda: setset, '_objtable')
     def set_universe(universe):
         if len(universe) != len(set(universe)):
             raise ValueError('duplicated elements found')
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..50ec297 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -18,6 +18,7 @@
 # WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 import _graphillion
+import functools
 import heapq
 
 """
@@ -78,6 +79,22 @@ class ObjectTable:
             return ret
         raise TypeError(obj)
 
+def unchanged_on_error(owner, *names):
+    """Makes a method leave attributes of a class as they were if it fails."""
+    def decorator(method):
+        @functools.wraps(method)
+        def wrapper(*args, **kwargs):
+            cls = owner()
+            saved = [(name, getattr(cls, name)) for name in names]
+            try:
+                return method(*args, **kwargs)
+            except BaseException:
+                for name, value in saved:
+                    setattr(cls, name, value)
+                raise
+        return wrapper
+    return decorator
+
 class Universe:
     """Manager class of universes.
 
@@ -169,6 +186,9 @@ class Universe:
         return Universe.ev_objtable.universe()
 
     @staticmethod
+    @unchanged_on_error(lambda: Universe, 'vertices', 'isolated_vertices',
+                        'weights', 'edge_vertex_kind', 'e_objtable',
+                        'v_objtable', 'ev_objtable')
     def set_universe(universe, traversal='greedy', source=None, weights=None, isolated=None):
         """Registers the new universe.
 
@@ -249,6 +269,9 @@ class Universe:
             Universe.isolated_vertices = isolated.copy()
 
     @staticmethod
+    @unchanged_on_error(lambda: Universe, 'vertices', 'isolated_vertices',
+                        'weights', 'edge_vertex_kind', 'e_objtable',
+                        'v_objtable', 'ev_objtable')
     def set_vertex_universe(universe, weights=None, tuple_vertex=False):
         """Registers the new vertex universe.
         Normally, there is no need to call this method because the universe
@@ -291,8 +314,7 @@ class Universe:
             raise ValueError("duplicated elements found")
 
         Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
+        Universe.weights = dict(Universe.weights)
 
         for i, vertex in enumerate(universe):
             if not tuple_vertex and isinstance(vertex, tuple):
-- 
2.43.0


From fa38419bf1ad4af47291ef8affa3062ec4efe44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 23/44] fix: weights and probabilities that lack an element of
 the family are rejected, not read out of bounds

---
 src/graphillion/setset.cc | 2 +-
 src/graphillion/zdd.cc    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index e3ae819..90ae75f 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -506,7 +506,7 @@ double setset::probability(const vector<double>& probabilities, elem_t num_elems
   } else if (this->zdd_ == top()) {
     double p = 1;
     for (int e = 1; e <= num_elems_a; ++e)
-      p *= 1 - probabilities[e];
+      p *= 1 - probabilities.at(e);
     return p;
   } else {
     map<word_t, double> cache;
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 1aebba8..63c896a 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -576,7 +576,8 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
   set<word_t> visited;
   elem_t max_elem = 0;
   sort_zdd(f, &stacks, &visited, &max_elem);
-  assert(w.size() > static_cast<size_t>(max_elem));
+  if (w.size() <= static_cast<size_t>(max_elem))
+    throw std::out_of_range("no weight is given for an element");
   x->clear();
   x->resize(max_elem + 1, false);
   map<word_t, bool> t;
@@ -622,7 +623,7 @@ static double skip_probability(elem_t e, zdd_t f,
                                elem_t num_elems_a) {
   double p = 1;
   for (int i = e; i < (is_term(f) ? num_elems_a + 1 : elem(f)); ++i)
-    p *= 1 - probabilities[i];
+    p *= 1 - probabilities.at(i);
   return p;
 }
 
@@ -634,9 +635,9 @@ double probability(elem_t e, zdd_t f, const vector<double>& probabilities,
     cache[id(l)] = probability(elem(l), l, probabilities, cache, num_elems_a);
   if (cache.find(id(h)) == cache.end())
     cache[id(h)] = probability(elem(h), h, probabilities, cache, num_elems_a);
-  double pl = (1 - probabilities[elem(f)]) *
+  double pl = (1 - probabilities.at(elem(f))) *
       skip_probability(elem(f) + 1, l, probabilities, num_elems_a) * cache.at(id(l));
-  double ph = probabilities[elem(f)] *
+  double ph = probabilities.at(elem(f)) *
       skip_probability(elem(f) + 1, h, probabilities, num_elems_a) * cache.at(id(h));
   return skip_probability(e, f, probabilities, num_elems_a) * (pl + ph);
 }
-- 
2.43.0


From e133116272f94781922d5f682347e9488340498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 24/44] fix: the node table stays in use when it cannot be
 initialised again for lack of memory

---
 src/SAPPOROBDD/bddc.cc | 74 ++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 0d786c3..aeb24e0 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -263,6 +263,41 @@ int bddinit(bddp initsize, bddp limitsize)
 {
   bddp   ix;
   bddvar i;
+  bddp   newLimit, newSpc, newCacheSpc;
+  struct B_NodeTable *newNode;
+  struct B_VarTable *newVar;
+  bddvar *newVarID;
+  struct B_CacheTable *newCache;
+
+  /* Set NodeLimit */
+  if(limitsize < B_NODE_SPC0) newLimit = B_NODE_SPC0;
+  else if(limitsize > B_NODE_MAX) newLimit = B_NODE_MAX;
+  else newLimit = limitsize;
+
+  /* Set NodeSpc */
+  if(initsize < B_NODE_SPC0) newSpc = B_NODE_SPC0;
+  else if(initsize > newLimit) newSpc = newLimit;
+  else newSpc = initsize;
+
+  /* Set CacheSpc */
+  for(newCacheSpc=B_NODE_SPC0; newCacheSpc<newSpc>>1; newCacheSpc<<=1U)
+    ; /* empty */
+
+  /* Memory allocation */
+  newNode = B_MALLOC(struct B_NodeTable, newSpc);
+  newVar = B_MALLOC(struct B_VarTable, B_VAR_SPC0);
+  newVarID = B_MALLOC(bddvar, B_VAR_SPC0);
+  newCache = B_MALLOC(struct B_CacheTable, newCacheSpc);
+
+  /* Check overflow; the present tables stay in use then */
+  if(newNode == 0 || newVar == 0 || newVarID == 0 || newCache == 0)
+  {
+    if(newCache) free(newCache);
+    if(newVarID) free(newVarID);
+    if(newVar) free(newVar);
+    if(newNode) free(newNode);
+    return 1;
+  }
 
   /* Check dupulicate initialization */
   if(Node){ free(Node); Node = 0; }
@@ -280,39 +315,14 @@ int bddinit(bddp initsize, bddp limitsize)
   if(VarID){ free(VarID); VarID = 0; }
   if(Cache){ free(Cache); Cache = 0; }
 
-  /* Set NodeLimit */
-  if(limitsize < B_NODE_SPC0) NodeLimit = B_NODE_SPC0;
-  else if(limitsize > B_NODE_MAX) NodeLimit = B_NODE_MAX;
-  else NodeLimit = limitsize;
-
-  /* Set NodeSpc */
-  if(initsize < B_NODE_SPC0) NodeSpc = B_NODE_SPC0;
-  else if(initsize > NodeLimit) NodeSpc = NodeLimit;
-  else NodeSpc = initsize;
-
-  /* Set CacheSpc */
-  for(CacheSpc=B_NODE_SPC0; CacheSpc<NodeSpc>>1; CacheSpc<<=1U)
-    ; /* empty */
-
-  /* Set VarSpc */
+  NodeLimit = newLimit;
+  NodeSpc = newSpc;
+  CacheSpc = newCacheSpc;
   VarSpc = B_VAR_SPC0;
-
-  /* Memory allocation */
-  Node = B_MALLOC(struct B_NodeTable, NodeSpc);
-  Var = B_MALLOC(struct B_VarTable, VarSpc);
-  VarID = B_MALLOC(bddvar, VarSpc);
-  Cache = B_MALLOC(struct B_CacheTable, CacheSpc);
-
-  /* Check overflow */
-  if(Node == 0 || Var == 0 || VarID == 0 || Cache == 0)
-  {
-    if(Cache){ free(Cache); Cache = 0; }
-    if(VarID){ free(VarID); VarID = 0; }
-    if(Var){ free(Var); Var = 0; }
-    if(Node){ free(Node); Node = 0; }
-    NodeLimit = 0;
-    return 1;
-  }
+  Node = newNode;
+  Var = newVar;
+  VarID = newVarID;
+  Cache = newCache;
 
   /* Initialize */
   NodeUsed = 0;
-- 
2.43.0


From f19fb18113cb987347f3b464b9752191e87435c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 25/44] fix: setset iterators take their snapshot when created

The generator bodies ran at the first next(), pairing the element table of
the time of creation with the family of the time of the first step, so a
universe switch in between made the iterator fail.
---
 graphillion/setset_base.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 4e9d5c6..314f676 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -115,20 +115,10 @@ class setset_base(_graphillion.setset):
             return _graphillion.setset.flip_all(self, objtable.num_elems())
 
     def _iter(self, objtable):
-        i = _graphillion.setset.iter(self)
-        while (True):
-            try:
-                yield objtable.conv_ret(next(i))
-            except StopIteration:
-                return
+        return self._convert(objtable, _graphillion.setset.iter(self))
 
     def rand_iter(self, objtable):
-        i = _graphillion.setset.rand_iter(self)
-        while (True):
-            try:
-                yield objtable.conv_ret(next(i))
-            except StopIteration:
-                return
+        return self._convert(objtable, _graphillion.setset.rand_iter(self))
 
     def min_iter(self, objtable, weights=None, default=1):
         return self._optimize(objtable, weights, default, _graphillion.setset.min_iter)
@@ -144,7 +134,10 @@ class setset_base(_graphillion.setset):
                 if e in universe:
                     i = objtable.obj2int[e]
                     ws[i] = w
-        i = generator(self, ws)
+        return self._convert(objtable, generator(self, ws))
+
+    @staticmethod
+    def _convert(objtable, i):
         while (True):
             try:
                 yield objtable.conv_ret(next(i))
-- 
2.43.0


From 06d3f5554443505f44ea20da4f5cc63fb6ffb2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 26/44] fix: induced_graphs compares the frontier entries, not
 a copy of one

---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From 158e1818b06ee3041d28312533e5d361faa8102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 27/44] fix: DiGraphSet.graphs() reaches degrees above the ones
 its constraint excludes

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..0ee25ef 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (out_constraints.at(edge.v1).upperBound() < outdeg1 + 1) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (in_constraints.at(edge.v2).upperBound() < indeg2 + 1) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 37498c9bac7d35799f19e453299bdb407093ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 28/44] fix: bipartite_graphs stays within the given graphset

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index cb990bf..e2592cd 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2523,7 +2523,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From f2fce341cf7dcab00db2da7d287191966d11f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 29/44] fix: odd_hole_graphs on universes with fewer than five
 vertices

---
 graphillion/graphclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..91114e7 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -197,6 +197,8 @@ class GraphClass:
             vertices.add(e[0])
             vertices.add(e[1])
         n = len(vertices)
+        if n < 5:
+            return GraphSet()
 
         # cycle with odd length at least 5
         dc = {}
-- 
2.43.0


From b34d8ba7addf60fecf18442ce93402c0cc38e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 30/44] fix: chordal_bipartite_graphs includes the disconnected
 ones

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 91114e7..98e8ba0 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -288,7 +288,7 @@ class GraphClass:
         cycles = GraphSet.cycles()
         cycles_length_at_least_6 = cycles.larger(5) # >= 6
         chordal = GraphSet.forbidden_induced_subgraphs(cycles_length_at_least_6)
-        return chordal & GraphSet.bipartite_graphs()
+        return chordal & GraphSet.bipartite_graphs(is_connected=False)
 
     @staticmethod
     def split_graphs():
-- 
2.43.0


From ce20f54e0246da45281102a6eae2bc4b7d4bb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 31/44] fix: spanning rooted_trees on a digraph that is not
 connected

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..e81afbd 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -260,7 +260,8 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
-            if (frontier_exists) {
+            // vertices on the frontier or in the remaining edges are not spanned
+            if (frontier_exists || level > 1) {
               return 0;
             } else {
               return -1;  // return the 1-terminal
-- 
2.43.0


From 467a658c62888c22d9b5bd107784ab5fb68fdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:44 +0000
Subject: [PATCH 32/44] fix: a result missing for lack of memory is not kept in
 the operation cache

---
 src/SAPPOROBDD/bddc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index aeb24e0..2a01736 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -2301,8 +2301,8 @@ static bddp apply(bddp f, bddp g, unsigned char op, unsigned char skip)
   /* Stack overflow limitter */
   BDD_RECUR_DEC;
 
-  /* Saving to Cache */
-  if(key != bddnull)
+  /* Saving to Cache (not a result missing for lack of memory) */
+  if(key != bddnull && h != bddnull)
   {
     cachep = Cache + key;
     cachep->op = op;
-- 
2.43.0


From 4af28ace2431b1cf000ba29ea9de856565eb1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 33/44] fix: setset.to_vertexsetset and to_edgevertexsetset
 create the variables of their results

---
 src/graphillion/setset.cc                        | 16 ++++++++++++++++
 .../variable_converter/variable_converter.cc     |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 90ae75f..b8a7a2a 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -27,6 +27,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <cstdlib>
 
 #include <algorithm>
+#include <stdexcept>
 
 #include "subsetting/dd/PathCounter.hpp"
 #include "subsetting/spec/SapporoZdd.hpp"
@@ -464,6 +465,16 @@ setset setset::remove_add_some_elements(int n, int lower) const {
   return setset(graphillion::remove_add_some_elements(this->zdd_, n, lower));
 }
 
+// Every element must be one of the edges, and every element of the result
+// needs a variable.
+static void prepare_conversion(const zdd_t& zdd, elem_t num_edges,
+                               elem_t num_new_elems) {
+  for (zdd_t f = zdd.Support(); !is_term(f); f = f.OffSet(f.Top())) {
+    if (elem(f) > num_edges) throw std::out_of_range("not an edge");
+  }
+  new_elems(std::max(max_elem(), num_new_elems));
+}
+
 setset setset::to_vertexsetset_setset(const std::vector<std::vector<std::string>> &edges_from_top) const {
   if (this->zdd_ == bot()) {
     return setset(bot());
@@ -473,6 +484,8 @@ setset setset::to_vertexsetset_setset(const std::vector<std::vector<std::string>
   tdzdd::Graph graph = graph_and_vlist.first;
   VariableConverter::VariableList vlist = graph_and_vlist.second;
 
+  prepare_conversion(this->zdd_, graph.edgeSize(), graph.vertexSize());
+
   //const int offset = max_elem() - std::max(graph.edgeSize(), graph.vertexSize());
   const int offset = max_elem() - graph.edgeSize();
   tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
@@ -491,6 +504,9 @@ setset setset::to_edgevertexsetset_setset(const std::vector<std::vector<std::str
   tdzdd::Graph graph = graph_and_vlist.first;
   VariableConverter::VariableList vlist = graph_and_vlist.second;
 
+  prepare_conversion(this->zdd_, graph.edgeSize(),
+                     graph.edgeSize() + graph.vertexSize());
+
   const int offset = max_elem() - graph.edgeSize();
   tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
   tdzdd::DdStructure<2> dd_e(dd_e_spec);
diff --git a/src/graphillion/variable_converter/variable_converter.cc b/src/graphillion/variable_converter/variable_converter.cc
index fb8e6d7..d6e9ec8 100644
--- a/src/graphillion/variable_converter/variable_converter.cc
+++ b/src/graphillion/variable_converter/variable_converter.cc
@@ -60,7 +60,7 @@ void VariableList::constructEVArray(const tdzdd::Graph& graph) {
       --pos;
       --new_n;
     }
-    if (e.v2final) {
+    if (e.v2final && e.v2 != e.v1) {
       kind_list_[pos] = Kind::VERTEX;
       variable_number_list_[pos] = e.v2;  // vertex number
       ev_to_newv_[pos] = new_n;
-- 
2.43.0


From bd0078eaabfe670525e157af4301e0798cee181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 34/44] fix: EdgeVertexSetSet rejects unknown vertices instead
 of adding them to the universe

---
 graphillion/edgevertex_setset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 0a93d31..e0d1165 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1571,6 +1571,8 @@ class EdgeVertexSetSet(object):
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
+            if edge_or_vertex not in Universe.ev_objtable.obj2int:
+                raise KeyError(edge_or_vertex)
             return edge_or_vertex # interpret it as a vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
-- 
2.43.0


From b05a93ef335386332907bd9a742596d4eebdf14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 35/44] fix: vertex weights and bounds that do not fit an int
 are rejected

---
 src/pygraphillion.cc | 46 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 34fcdb6..9ae58c3 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -39,6 +39,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <cerrno>
 #include <cstdlib>
 #include <climits>
+#include <cmath>
 
 #include <algorithm>
 #include <exception>
@@ -2196,6 +2197,35 @@ static PyObject* graph_partitions(PyObject*, PyObject* args, PyObject* kwds){
   RETURN_NEW_SETSET(ss);
 }
 
+// Weights and bounds are summed and compared as int. Returns false with an
+// exception set if they do not fit.
+static bool check_weights(const vector<pair<string, string> >& graph,
+                          const map<string, uint32_t>& weight_list,
+                          long long* lower, long long* upper) {
+  if (*lower < 0 || *upper < 0) {
+    PyErr_SetString(PyExc_ValueError, "bound is negative");
+    return false;
+  }
+  map<string, uint32_t> weights;  // 1 unless it is given
+  for (const auto& e : graph) {
+    weights.insert({e.first, 1});
+    weights.insert({e.second, 1});
+  }
+  for (const auto& w : weight_list) weights[w.first] = w.second;
+  const long long limit = std::numeric_limits<int>::max();
+  long long sum = 0;
+  for (const auto& w : weights) {
+    sum += w.second;
+    if (sum >= limit) {
+      PyErr_SetString(PyExc_ValueError, "weights are too large");
+      return false;
+    }
+  }
+  *lower = std::min(*lower, limit);
+  *upper = std::min(*upper, limit);
+  return true;
+}
+
 static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds) {
   static char s1[] = "graph";
   static char s2[] = "weight_list";
@@ -2208,9 +2238,9 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long long lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
@@ -2223,8 +2253,8 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
   }
-  if (ratio != 0 && ratio < 1.0) {
-    PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0");
+  if (ratio != 0 && !(ratio >= 1.0 && std::isfinite(ratio))) {
+    PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0 or not finite");
     return NULL;
   }
   if (std::numeric_limits<int16_t>::max() < num_comps) {
@@ -2275,6 +2305,8 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     }
   }
 
+  if (!check_weights(graph, weight_list, &lower, &upper)) return NULL;
+
   auto ss = graphillion::SearchBalancedPartitions(graph, weight_list, ratio, lower,
                                              upper, num_comps);
   RETURN_NEW_SETSET(ss);
@@ -2309,8 +2341,8 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  long long lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
@@ -2361,6 +2393,8 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
     }
   }
 
+  if (!check_weights(graph, weight_list, &lower, &upper)) return NULL;
+
   auto ss = graphillion::SearchWeightedInducedGraphs(graph, weight_list, lower,
                                                      upper);
   RETURN_NEW_SETSET(ss);
-- 
2.43.0


From 430da8a47f818013535fabf68c0bd69847a16acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 36/44] fix: the edge-vertex universe follows the order in
 which the edges were traversed

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 50ec297..b655a35 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -261,7 +261,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From 53b8cc8f934d5a986beb8b6d56687ec9bc0e4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 37/44] fix: elements added to the universe by several threads
 at once get different numbers

---
 graphillion/universe.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index b655a35..6ef5208 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -20,6 +20,7 @@
 import _graphillion
 import functools
 import heapq
+import threading
 
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
@@ -34,16 +35,18 @@ class ObjectTable:
     def __init__(self):
         self.obj2int = {}
         self.int2obj = [None]
+        self.lock = threading.RLock()  # held while an element is added
 
     def num_elems(self):
         return len(self.int2obj) - 1
 
     def check_universe(self):
-        for e, i in self.obj2int.items():
-            assert e == self.int2obj[i]
-        for i in range(1, len(self.int2obj)):
-            e = self.int2obj[i]
-            assert i == self.obj2int[e]
+        with self.lock:
+            for e, i in self.obj2int.items():
+                assert e == self.int2obj[i]
+            for i in range(1, len(self.int2obj)):
+                e = self.int2obj[i]
+                assert i == self.obj2int[e]
 
     def universe(self):
         return self.int2obj[1:]
@@ -55,14 +58,16 @@ class ObjectTable:
             raise RuntimeError(m)
         i = len(self.int2obj)
         _graphillion.setset([set([i])])
-        self.obj2int[elem] = i
         self.int2obj.append(elem)
+        self.obj2int[elem] = i
         assert self.int2obj[i] == elem
         assert self.obj2int[elem] == i
 
     def conv_elem(self, elem):
         if elem not in self.obj2int:
-            self.add_elem(elem)
+            with self.lock:
+                if elem not in self.obj2int:  # another thread may have added it
+                    self.add_elem(elem)
         return self.obj2int[elem]
 
     def conv_arg(self, obj):
-- 
2.43.0


From 7bb27a23c939f0304e5ddc3f651eb02cd1c12766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 38/44] fix: vertices that are equal are the same vertex in
 searches

---
 graphillion/digraphset.py | 41 ++++++++++++++++++++++-----------------
 graphillion/graphset.py   | 39 ++++++++++++++++++-------------------
 graphillion/universe.py   | 28 +++++++++++++++++++++++---
 3 files changed, 67 insertions(+), 41 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 784e2f1..9091a71 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,9 +22,8 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable, unchanged_on_error
+from graphillion.universe import ObjectTable, unchanged_on_error, vertex_names
 from graphillion.setset_base import setset_base
-import pickle
 import heapq
 
 
@@ -1734,7 +1733,7 @@ class DiGraphSet(object):
         return DiGraphSet(setset_base.loads(s))
 
     @staticmethod
-    @unchanged_on_error(lambda: DiGraphSet, '_vertices', '_weights', '_objtable')
+    @unchanged_on_error(lambda: DiGraphSet, '_vertices', '_names', '_weights', '_objtable')
     def set_universe(universe, traversal='greedy', source=None):
         """Registers the new universe.
 
@@ -1782,6 +1781,7 @@ class DiGraphSet(object):
         for u, v in sorted_edges:
             DiGraphSet._vertices.add(u)
             DiGraphSet._vertices.add(v)
+        DiGraphSet._names = vertex_names(sorted_edges)
         #setset_base.set_universe(sorted_edges)
         DiGraphSet._objtable = ObjectTable()
         for e in sorted_edges:
@@ -1831,7 +1831,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1857,7 +1857,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1894,14 +1894,14 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
         ss = _graphillion._directed_st_path(
-            graph=graph, s=pickle.dumps(s, protocol=0), t=pickle.dumps(t, protocol=0),
+            graph=graph, s=DiGraphSet._name(s), t=DiGraphSet._name(t),
             is_hamiltonian=is_hamiltonian, search_space=ss)
         return DiGraphSet(ss)
 
@@ -1930,13 +1930,13 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         rs = []
         if roots is not None:
             for root in roots:
                 assert root in DiGraphSet._vertices
-                rs.append(pickle.dumps(root, protocol=0))
+                rs.append(DiGraphSet._name(root))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1971,12 +1971,12 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-            graph=graph, root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)
+            graph=graph, root=DiGraphSet._name(root), is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
 
     @staticmethod
@@ -2010,7 +2010,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._name(e[0]), DiGraphSet._name(e[1])))
 
         in_dc = None
         if in_degree_constraints is not None:
@@ -2019,11 +2019,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    in_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    in_dc[DiGraphSet._name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    in_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    in_dc[DiGraphSet._name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    in_dc[pickle.dumps(v, protocol=0)] = (
+                    in_dc[DiGraphSet._name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         out_dc = None
@@ -2033,11 +2033,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    out_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    out_dc[DiGraphSet._name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    out_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    out_dc[DiGraphSet._name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    out_dc[pickle.dumps(v, protocol=0)] = (
+                    out_dc[DiGraphSet._name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         ss = None if graphset is None else graphset._ss
@@ -2181,7 +2181,12 @@ class DiGraphSet(object):
     converters = {'to_graph': lambda edges: edges,
                   'to_edges': lambda graph: graph}
 
+    @staticmethod
+    def _name(vertex):
+        return DiGraphSet._names[vertex]
+
     _vertices = set()
+    _names = {}
     _weights = {}
 
     _objtable = ObjectTable()
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index e2592cd..d1ad124 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -25,7 +25,6 @@ from builtins import range, int
 import _graphillion
 from graphillion.universe import Universe
 from graphillion.setset_base import setset_base
-import pickle
 
 class GraphSet(object):
     """Represents and manipulates a set of graphs.
@@ -1924,7 +1923,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe._name(e[0]), Universe._name(e[1])))
 
         vg = []
         nc = 0
@@ -1936,7 +1935,7 @@ class GraphSet(object):
                     for v in vs:
                         if v not in Universe.vertices:
                             raise KeyError(v)
-                    vg.append([pickle.dumps(v, protocol=0) for v in vs])
+                    vg.append([Universe._name(v) for v in vs])
         if not vg and nc == 0:
             nc = -1
 
@@ -1947,11 +1946,11 @@ class GraphSet(object):
                 if v not in Universe.vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    dc[Universe._name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    dc[Universe._name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[-1] + 1, r[1] - r[0])
+                    dc[Universe._name(v)] = (r[0], r[-1] + 1, r[1] - r[0])
 
         ne = None
         if num_edges is not None:
@@ -1971,8 +1970,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    u = Universe._name(we[0])
+                    v = Universe._name(we[1])
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
@@ -2479,7 +2478,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe._name(e[0]), Universe._name(e[1])))
 
         if degree == None:
             degree = (1, len(Universe.vertices))
@@ -2511,7 +2510,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         odd_gs = GraphSet(_graphillion._odd_edges_subgraphs(graph))
         odd_cycle_gs = odd_gs.cycles()
@@ -2673,7 +2672,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         ss = None if graphset is None else graphset._ss
         ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
@@ -2717,7 +2716,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-              (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+              (Universe._name(e[0]), Universe._name(e[1])))
 
         ss = _graphillion._partitions(
           graph=graph, num_comp_lb=num_comp_lb, num_comp_ub=num_comp_ub)
@@ -2753,7 +2752,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2761,7 +2760,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe._name(v)] = r
 
         ss = _graphillion._balanced_partitions(
             graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
@@ -2783,7 +2782,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         ss = _graphillion._induced_graphs(graph=graph)
         return GraphSet(ss)
@@ -2813,7 +2812,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2821,7 +2820,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe._name(v)] = r
 
         ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
         return GraphSet(ss)
@@ -2840,7 +2839,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         ss = None if forbidden_graphset is None else forbidden_graphset._ss
 
@@ -2878,14 +2877,14 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe._name(e[0]), Universe._name(e[1])))
 
         terms = []
         if terminals is not None:
             for v in terminals:
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                terms.append(pickle.dumps(v, protocol=0))
+                terms.append(Universe._name(v))
 
         #ps = [1.0] * (_graphillion._num_elems())
         ps = [1.0] * (Universe.e_objtable.num_elems())
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 6ef5208..19612a3 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -100,6 +100,18 @@ def unchanged_on_error(owner, *names):
         return wrapper
     return decorator
 
+def vertex_names(edges):
+    """Returns the names by which the extension knows the vertices of edges.
+
+    Equal vertices have the same name, even if they are different objects.
+    """
+    names = {}
+    for e in edges:
+        for v in e[:2]:
+            if v not in names:
+                names[v] = str(len(names) + 1).encode()
+    return names
+
 class Universe:
     """Manager class of universes.
 
@@ -108,6 +120,7 @@ class Universe:
     """
 
     vertices = set()
+    vertex_names = {}
     isolated_vertices = set()
     weights = {}
     edge_vertex_kind = {}
@@ -191,7 +204,8 @@ class Universe:
         return Universe.ev_objtable.universe()
 
     @staticmethod
-    @unchanged_on_error(lambda: Universe, 'vertices', 'isolated_vertices',
+    @unchanged_on_error(lambda: Universe, 'vertices', 'vertex_names',
+                        'isolated_vertices',
                         'weights', 'edge_vertex_kind', 'e_objtable',
                         'v_objtable', 'ev_objtable')
     def set_universe(universe, traversal='greedy', source=None, weights=None, isolated=None):
@@ -257,13 +271,17 @@ class Universe:
         for u, v in sorted_edges:
             Universe.vertices.add(u)
             Universe.vertices.add(v)
+        Universe.vertex_names = vertex_names(sorted_edges)
         #setset.set_universe(sorted_edges)
         Universe.e_objtable = ObjectTable()
         for e in sorted_edges:
             Universe.e_objtable.add_elem(e)
 
-        from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertices = list(Universe.vertex_names)  # vertex i + 1 is vertices[i]
+        numbers = {v: i + 1 for i, v in enumerate(vertices)}
+        edges = [[numbers[u], numbers[v]] for u, v in sorted_edges]
+        vertex_universe = [vertices[int(i) - 1]
+                           for i in _graphillion._get_vertices_from_top(edges)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
@@ -366,6 +384,10 @@ class Universe:
         for x in edges_vertices:
             Universe.ev_objtable.add_elem(x)
 
+    @staticmethod
+    def _name(vertex):
+        return Universe.vertex_names[vertex]
+
     @staticmethod
     def _traverse(indexed_edges, traversal, source):
         neighbors = {}
-- 
2.43.0


From 83c02e9722c930d653763abb1215e0a7ff2d7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 39/44] fix: reliability accepts an edge in either direction

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index d1ad124..9b4dc8e 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2890,7 +2890,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
-- 
2.43.0


From 76409409df596d675c3b5330acb2361555e86c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 40/44] fix: filters of graphs and some classes accept
 registered graph objects

---
 graphillion/digraphset.py | 15 ++++++++++-----
 graphillion/graphclass.py |  2 +-
 graphillion/graphset.py   | 17 +++++++++++------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 9091a71..9663419 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1359,11 +1359,11 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj._ss))
         elif type == 'graph':
-            return self.including(DiGraphSet([obj]))
+            return self.including(DiGraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return DiGraphSet(self._ss.supersets(DiGraphSet._objtable, obj))
         else:
-            return self.including(DiGraphSet([set([e]) for e in obj]))
+            return self.including(DiGraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def excluding(self, obj):
         """Returns a new DiGraphSet that doesn't include `obj`.
@@ -1403,11 +1403,11 @@ class DiGraphSet(object):
             #            return DiGraphSet(self._ss.non_supersets(obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(DiGraphSet([obj]))
+            return self.excluding(DiGraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return DiGraphSet(self._ss.non_supersets(DiGraphSet._objtable, obj))
         else:
-            return self.excluding(DiGraphSet([set([e]) for e in obj]))
+            return self.excluding(DiGraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def included(self, obj):
         """Returns a new DiGraphSet with subgraphs of a digraph in `obj`.
@@ -1437,7 +1437,7 @@ class DiGraphSet(object):
         if type == 'digraphset':
             return DiGraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(DiGraphSet([obj]))
+            return self.included(DiGraphSet._from_edge_sets([obj]))
         else:
             raise TypeError(obj)
 
@@ -2160,6 +2160,11 @@ class DiGraphSet(object):
     def _conv_graph(obj):
         return DiGraphSet.converters['to_edges'](obj)
 
+    @staticmethod
+    def _from_edge_sets(edge_sets):
+        # edges are already converted from graph objects
+        return DiGraphSet(setset_base(DiGraphSet._objtable, edge_sets))
+
     @staticmethod
     def _conv_edge(edge):
         if not isinstance(edge, tuple) or len(edge) < 2:
diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 98e8ba0..d39b086 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -191,7 +191,7 @@ class GraphClass:
         Notes:
             See https://www.graphclasses.org/smallgraphs.html#odd_holes for more information.
         """
-        univ = GraphSet.universe()
+        univ = Universe.e_objtable.universe()
         vertices = set()
         for e in univ:
             vertices.add(e[0])
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 9b4dc8e..518f155 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1374,11 +1374,11 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj._ss))
         elif type == 'graph':
-            return self.including(GraphSet([obj]))
+            return self.including(GraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return GraphSet(self._ss.supersets(Universe.e_objtable, obj))
         else:
-            return self.including(GraphSet([set([e]) for e in obj]))
+            return self.including(GraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def excluding(self, obj):
         """Returns a new GraphSet that doesn't include `obj`.
@@ -1418,11 +1418,11 @@ class GraphSet(object):
 #            return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj._ss))  # correct but slow
             return self - self.including(obj)
         elif type == 'graph':
-            return self.excluding(GraphSet([obj]))
+            return self.excluding(GraphSet._from_edge_sets([obj]))
         elif type == 'edge':
             return GraphSet(self._ss.non_supersets(Universe.e_objtable, obj))
         else:
-            return self.excluding(GraphSet([set([e]) for e in obj]))
+            return self.excluding(GraphSet._from_edge_sets([set([e]) for e in obj]))
 
     def included(self, obj):
         """Returns a new GraphSet with subgraphs of a graph in `obj`.
@@ -1452,7 +1452,7 @@ class GraphSet(object):
         if type == 'graphset':
             return GraphSet(self._ss.subsets(obj._ss))
         elif type == 'graph':
-            return self.included(GraphSet([obj]))
+            return self.included(GraphSet._from_edge_sets([obj]))
         else:
             raise TypeError(obj)
 
@@ -2522,7 +2522,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet._from_edge_sets([[]]))
         else:
             return gs
 
@@ -2970,6 +2970,11 @@ class GraphSet(object):
     def _conv_graph(obj):
         return GraphSet.converters['to_edges'](obj)
 
+    @staticmethod
+    def _from_edge_sets(edge_sets):
+        # edges are already converted from graph objects
+        return GraphSet(setset_base(Universe.e_objtable, edge_sets))
+
     @staticmethod
     def _conv_edge(edge):
         if not isinstance(edge, tuple) or len(edge) < 2:
-- 
2.43.0


From 3c12187092a0b7b85cbf9ebdc74b60c4e2e74226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 41/44] fix: edge attributes given by converters are not
 weights in default iteration

---
 graphillion/digraphset.py        | 6 +++---
 graphillion/edgevertex_setset.py | 6 +++---
 graphillion/graphset.py          | 6 +++---
 graphillion/universe.py          | 8 ++++++++
 graphillion/vertex_setset.py     | 6 +++---
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 9663419..03d16c9 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable, unchanged_on_error, vertex_names
+from graphillion.universe import ObjectTable, numeric_weights, unchanged_on_error, vertex_names
 from graphillion.setset_base import setset_base
 import heapq
 
@@ -723,7 +723,7 @@ class DiGraphSet(object):
 
         """
         if weights is None:
-            weights = DiGraphSet._weights
+            weights = numeric_weights(DiGraphSet._weights)
         for g in self._ss.min_iter(DiGraphSet._objtable, weights):
             try:
                 yield DiGraphSet._conv_ret(g)
@@ -763,7 +763,7 @@ class DiGraphSet(object):
           __iter__(), rand_iter(), min_iter()
         """
         if weights is None:
-            weights = DiGraphSet._weights
+            weights = numeric_weights(DiGraphSet._weights)
         for g in self._ss.max_iter(DiGraphSet._objtable, weights):
             try:
                 yield DiGraphSet._conv_ret(g)
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index e0d1165..2c3c27a 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -23,7 +23,7 @@
 from builtins import range, int
 import _graphillion
 from graphillion.universe import ObjectTable
-from graphillion.universe import Universe
+from graphillion.universe import Universe, numeric_weights
 from graphillion.setset_base import setset_base
 
 
@@ -627,7 +627,7 @@ class EdgeVertexSetSet(object):
 
         """
         if weights is None:
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         else:
             weights = EdgeVertexSetSet._conv_keys(weights)
         for g in self._ss.min_iter(Universe.ev_objtable, weights):
@@ -670,7 +670,7 @@ class EdgeVertexSetSet(object):
           __iter__(), rand_iter(), min_iter()
         """
         if weights is None:
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         else:
             weights = EdgeVertexSetSet._conv_keys(weights)
         for g in self._ss.max_iter(Universe.ev_objtable, weights):
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 518f155..9967855 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,7 +23,7 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe
+from graphillion.universe import Universe, numeric_weights
 from graphillion.setset_base import setset_base
 
 class GraphSet(object):
@@ -723,7 +723,7 @@ class GraphSet(object):
 
         """
         if weights is None:
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         else:
             weights = GraphSet._conv_keys(weights)
         for g in self._ss.min_iter(Universe.e_objtable, weights):
@@ -765,7 +765,7 @@ class GraphSet(object):
           __iter__(), rand_iter(), min_iter()
         """
         if weights is None:
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         else:
             weights = GraphSet._conv_keys(weights)
         for g in self._ss.max_iter(Universe.e_objtable, weights):
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 19612a3..9179847 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -112,6 +112,14 @@ def vertex_names(edges):
                 names[v] = str(len(names) + 1).encode()
     return names
 
+def numeric_weights(weights):
+    """Returns the weights without attribute dictionaries.
+
+    Converters like networkx.to_edgelist() give each edge together with a
+    dictionary of attributes, which is not a weight.
+    """
+    return {e: w for e, w in weights.items() if not isinstance(w, dict)}
+
 class Universe:
     """Manager class of universes.
 
diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index f7930f9..5b086a9 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -25,7 +25,7 @@ import sys
 
 import _graphillion
 from graphillion.universe import ObjectTable
-from graphillion.universe import Universe
+from graphillion.universe import Universe, numeric_weights
 from graphillion.setset_base import setset_base
 
 class VertexSetSet(object):
@@ -741,7 +741,7 @@ class VertexSetSet(object):
         """
         if weights is None:
             #weights = VertexSetSet._obj2weight
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         #else:
         #    weights = {VertexSetSet._vertex2obj[vertex]: weight for vertex, weight in weights.items()}
         for objs in self._ss.min_iter(Universe.v_objtable, weights):
@@ -785,7 +785,7 @@ class VertexSetSet(object):
         """
         if weights is None:
             #weights = VertexSetSet._obj2weight
-            weights = Universe.weights
+            weights = numeric_weights(Universe.weights)
         #else:
         #    weights = {VertexSetSet._vertex2obj[vertex]: weight for vertex, weight in weights.items()}
         for objs in self._ss.max_iter(Universe.v_objtable, weights):
-- 
2.43.0


From 03fb6d0685a8db701b7cb0ae68414412f34193d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 42/44] fix: conversion to vertex sets identifies vertices by
 equality

---
 graphillion/setset_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 314f676..24cfb51 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -22,6 +22,7 @@
 
 from builtins import range
 import _graphillion
+from graphillion.universe import vertex_names
 
 
 class setset_base(_graphillion.setset):
@@ -182,12 +183,19 @@ class setset_base(_graphillion.setset):
     def remove_add_some_elements(self, objtable):
         return _graphillion.setset.remove_add_some_elements(self, objtable.num_elems())
 
+    @staticmethod
+    def _named_edges(objtable):
+        # equal vertices, and only those, have the same name
+        edges = objtable.universe()
+        names = vertex_names(edges)
+        return [[names[v] for v in e] for e in edges]
+
     def to_vertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = setset_base._named_edges(objtable)
         return _graphillion.setset.to_vertexsetset(self, edges_from_top)
 
     def to_edgevertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = setset_base._named_edges(objtable)
         return _graphillion.setset.to_edgevertexsetset(self, edges_from_top)
 
     @staticmethod
-- 
2.43.0


From 934988e9d5566d9c06d16a34b78ce81ca91e2883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 43/44] fix: conversion to vertex sets follows a vertex
 universe set explicitly

---
 graphillion/graphset.py    |  9 ++++++++-
 graphillion/setset_base.py | 14 ++++++++++++++
 graphillion/universe.py    |  4 +++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 9967855..fff86d8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1694,7 +1694,14 @@ class GraphSet(object):
 
         """
         from graphillion import VertexSetSet
-        return VertexSetSet(self._ss.to_vertexsetset(Universe.e_objtable))
+        ss = self._ss.to_vertexsetset(Universe.e_objtable)
+        vertices = Universe.vertices_from_top
+        if Universe.v_objtable.universe() != vertices:
+            # the vertex universe has been set explicitly
+            used = [i for i in range(1, len(vertices) + 1) if ss.supersets(i)]
+            ss = setset_base._renumber(
+                ss, {i: Universe.v_objtable.obj2int[vertices[i - 1]] for i in used})
+        return VertexSetSet(ss)
 
     def to_edgevertexsetset(self):
         """Returns a new EdgeVertexSetSet with edges and vertices of each graph in `self`.
diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 24cfb51..3d44aa4 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -198,6 +198,20 @@ class setset_base(_graphillion.setset):
         edges_from_top = setset_base._named_edges(objtable)
         return _graphillion.setset.to_edgevertexsetset(self, edges_from_top)
 
+    @staticmethod
+    def _renumber(ss, numbers):
+        # numbers: dict[int, int], from old to new numbers of elements
+        m = max(list(numbers) + list(numbers.values()) + [0])
+        renames = [(i, m + i) for i in numbers] + \
+                  [(m + i, j) for i, j in numbers.items()]
+        for i, j in renames:
+            with_i = ss.supersets(i)
+            if with_i:
+                with_i.remove(i)
+                with_i.add(j)
+                ss = ss.non_supersets(i).union(with_i)
+        return ss
+
     @staticmethod
     def get_vertices_from_top(objtable):
         edges_from_top = [list(e) for e in objtable.int2obj[1:]]
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 9179847..f953f61 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -129,6 +129,7 @@ class Universe:
 
     vertices = set()
     vertex_names = {}
+    vertices_from_top = []
     isolated_vertices = set()
     weights = {}
     edge_vertex_kind = {}
@@ -213,7 +214,7 @@ class Universe:
 
     @staticmethod
     @unchanged_on_error(lambda: Universe, 'vertices', 'vertex_names',
-                        'isolated_vertices',
+                        'vertices_from_top', 'isolated_vertices',
                         'weights', 'edge_vertex_kind', 'e_objtable',
                         'v_objtable', 'ev_objtable')
     def set_universe(universe, traversal='greedy', source=None, weights=None, isolated=None):
@@ -290,6 +291,7 @@ class Universe:
         edges = [[numbers[u], numbers[v]] for u, v in sorted_edges]
         vertex_universe = [vertices[int(i) - 1]
                            for i in _graphillion._get_vertices_from_top(edges)]
+        Universe.vertices_from_top = vertex_universe
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From 803b0afc651384ec18464cd5904d4e3a9ca02290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 44/44] fix: families whose elements are not mutually
 comparable can be printed

---
 graphillion/setset_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 3d44aa4..a596259 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -72,7 +72,11 @@ class setset_base(_graphillion.setset):
             else:
                 ret += ', '
             if obj_to_str is None:
-                ret += inner_braces[0] + str(sorted(list(s)))[1:-1] + inner_braces[1]
+                try:
+                    elems = sorted(s)
+                except TypeError:  # elements of several types
+                    elems = sorted(s, key=lambda e: objtable.obj2int[e])
+                ret += inner_braces[0] + str(elems)[1:-1] + inner_braces[1]
             else:
                 ret += inner_braces[0] + str(sorted([eval(obj_to_str[tuple(obj)]) for obj in s]))[1:-1] + inner_braces[1]
             if len(ret) > maxchar - 2:
-- 
2.43.0

