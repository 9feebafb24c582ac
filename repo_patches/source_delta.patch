From 09c4b9bfe287fa14a26d800094c55b4c20020f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/30] fix: apply storage dynamics to every storage of a node

StorageBuilder.add_node returned after the first storage, so the second
and following storages of a node had no level equation and produced
energy for free.
---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From 7b61c4d7117ecde93bc16c2a706558786f9dfbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:56 +0000
Subject: [PATCH 02/30] fix: raise when the solver finds no solution instead of
 returning zeros

The status of Solve() was ignored: an infeasible study (for instance a
storage starting above what it can hold) silently returned a plan made of
zeros that violates the study's own constraints.
---
 hadar/optimizer/lp/optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..626866c 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -404,7 +404,17 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in (
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.NOT_SOLVED,
+    ):
+        raise ValueError(
+            "No optimal solution found for scenario %d (solver status %d)"
+            % (i_scn, status)
+        )
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From d262d4c1aefde2a9c82ddfe2a17f9d4691158a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:11 +0000
Subject: [PATCH 03/30] fix: reject quantities that are negative at some time
 step or scenario

Arrays were compared with np.all, so '< 0' was true only when every value
was negative: a single negative quantity, capacity, flow or out of range
efficiency passed validation and broke the optimisation.
---
 hadar/optimizer/domain/input.py   | 12 ++++++------
 hadar/optimizer/domain/numeric.py |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..6273d51 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if not quantity >= 0:
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if not prod.quantity >= 0:
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if not cons.quantity >= 0:
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if not (store.flow_in >= 0 and store.flow_out >= 0):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if not (store.capacity >= 0 and store.init_capacity >= 0):
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if not (store.eff >= 0 and store.eff <= 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..10119d3 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -91,9 +91,15 @@ class NumpyNumericalValue(NumericalValue[np.ndarray], ABC):
     def __lt__(self, other) -> bool:
         return np.all(self.value < other)
 
+    def __le__(self, other) -> bool:
+        return np.all(self.value <= other)
+
     def __gt__(self, other) -> bool:
         return np.all(self.value > other)
 
+    def __ge__(self, other) -> bool:
+        return np.all(self.value >= other)
+
 
 class MatrixNumericalValue(NumpyNumericalValue):
     """
-- 
2.43.0


From 3eac1911c433689a45dc371c606bd916ac30b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 04/30] fix: reject links from a node to itself

The export and the import of such a link share one coefficient in the
node's balance, the second overwriting the first: the link produced
energy for free.
---
 hadar/optimizer/domain/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 6273d51..2d67ab6 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -338,6 +338,8 @@ class Study(JSON):
             raise ValueError("link source must be a valid node")
         if dest not in self.networks[network].nodes.keys():
             raise ValueError("link destination must be a valid node")
+        if src == dest:
+            raise ValueError("link destination must be different from its source")
         if dest in [l.dest for l in self.networks[network].nodes[src].links]:
             raise ValueError("link destination must be unique on a node")
 
-- 
2.43.0


From c38e30303bcb0980dff898d2624039fbd38d2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:18 +0000
Subject: [PATCH 05/30] fix: store study arrays as floats of their own

Arrays of integers, booleans or single precision numbers crashed when the
linear program was built or serialised, and float arrays were aliased: the
caller changing its array afterwards changed the study.
---
 hadar/optimizer/domain/numeric.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 10119d3..4283431 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -186,9 +186,11 @@ class NumericalValueFactory:
                 value=value, horizon=self.horizon, nb_scn=self.nb_scn
             )
 
-        # If data is list or pandas object convert to numpy array
-        if type(value) in [List, list, pd.DataFrame, pd.Series]:
-            value = np.array(value)
+        # If data is list, pandas object or array of any numeric type convert to numpy array of float
+        if type(value) in [List, list, pd.DataFrame, pd.Series] or isinstance(
+            value, np.ndarray
+        ):
+            value = np.array(value, dtype=float)
 
         if isinstance(value, np.ndarray):
             # If scenario are not provided copy timeseries for each scenario
-- 
2.43.0


From c670ad39b14a2d4cac3c3449059ea0d0a0e695e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:51 +0000
Subject: [PATCH 06/30] fix: validate converters before registering them

A refused converter (unknown destination, wrong shape) stayed half
registered in the study, and ratios or limits that cannot be optimised
(zero or negative ratio, negative max) were accepted.
---
 hadar/optimizer/domain/input.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 2d67ab6..6fa9dc7 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -420,12 +420,19 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        if (
+            name in self.converters
+            and (network, node) in self.converters[name].src_ratios
+        ):
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        if not ratio > 0:
+            raise ValueError("converter ratio must be strictly positive")
+
+        self._add_converter(name=name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -436,7 +443,11 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        if (
+            name in self.converters
+            and self.converters[name].dest_network
+            and self.converters[name].dest_node
+        ):
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -444,10 +455,16 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        if not max >= 0:
+            raise ValueError("converter max must be positive")
+
+        self._add_converter(name=name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -524,7 +541,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -682,7 +698,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 69a83b78f2b5582a1f4bced732aff280e2fa2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 07/30] fix: a node selector of the study API keeps its own
 node

All selectors of a network shared one dictionary: selecting another node
silently redirected the elements added through selectors kept from before.
---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 6fa9dc7..f12cbb7 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -483,9 +483,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, dict(self.selector, node=name))
 
     def link(
         self,
-- 
2.43.0


From 00fb651e4fa7f4d0fe7bda565ea8107c9df9820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:31 +0000
Subject: [PATCH 08/30] fix: Result.from_json leaves its argument unchanged

The dictionary received was rewritten in place, so it could be neither
read again nor stored after the result was built.
---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From 5831d263258607b3e76f77215ccfc7f24e6d4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 09/30] fix: label and place every converter source in the
 analyzer table

---
 hadar/analyzer/result.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..3916d19 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -429,16 +429,12 @@ class ResultAnalyzer:
 
         s = 0
         for name, v in study.converters.items():
-            src_size = len(v.src_ratios)
-            e = s + h * scn * src_size
-            slices = src_conv.index[s:e]
-            src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
-
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
+                src_conv.loc[slices, "name"] = v.name
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
@@ -447,7 +443,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From 3cc9e4464cf21b8d715a55538ac9142fb946331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 10/30] fix: keep every storage in the analyzer table

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 3916d19..b3871de 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 1c2ad15646484683e6f57d95a0493f2f01bb2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 11/30] fix: one destination row per converter in the analyzer
 table

---
 hadar/analyzer/result.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index b3871de..7df8cc3 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,8 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
-        size = h * scn * elements
+        size = h * scn * len(study.converters)
 
         dest_conv = {
             "name": np.empty(size, dtype=str),
-- 
2.43.0


From 8e6c4c81749a1730818d2fc4777beedc53712c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 12/30] fix: converter tables of a study without converters
 have their index columns

---
 hadar/analyzer/result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 7df8cc3..071b314 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -395,6 +395,8 @@ class ResultAnalyzer:
             "flow": np.empty(size, dtype=float),
             "cost": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         dest_conv = pd.DataFrame(data=dest_conv)
 
@@ -406,8 +408,8 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+            dest_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
 
         return dest_conv
 
@@ -425,6 +427,8 @@ class ResultAnalyzer:
             "ratio": np.empty(size, dtype=float),
             "flow": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         src_conv = pd.DataFrame(data=src_conv)
 
@@ -434,8 +438,8 @@ class ResultAnalyzer:
                 e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "name"] = v.name
-                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
-- 
2.43.0


From 0dc1cf9b79ba8110a42337384f938e7554d33f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 13/30] fix: a partial analyzer query can be continued several
 times

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 071b314..0d2a5af 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -801,8 +801,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = self.indexes + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(deepcopy(indexes), self.analyzer)
-- 
2.43.0


From 30b78666f43460e1d8a3197bf8a5fc593e3b1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 14/30] fix: answer analyzer queries that select a single value

---
 hadar/analyzer/result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 0d2a5af..77c20c7 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -467,7 +467,12 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        # keep the last level: a fully determined query still answers with a dataframe
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From 979bda53ca73b276b706e8b36ee0e5a4b4009e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:04 +0000
Subject: [PATCH 15/30] fix: open slices in analyzer queries

---
 hadar/analyzer/result.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 77c20c7..2012e35 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,26 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.start, self.step = 0, 1
         if isinstance(index, slice):
             start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
             step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None:
+                # open slice: keep everything from start, the last index is only known by data
+                self.start, self.step = start, step
+                index = None
+            else:
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        mask = Index.filter(self, df)
+        if self.all:
+            mask &= (df[self.column] >= self.start) & (
+                (df[self.column] - self.start) % self.step == 0
+            )
+        return mask
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From bc893d4e57e36af9c4e2193777036c81172a20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:51 +0000
Subject: [PATCH 16/30] fix: linking stages leaves them unchanged and checks
 the whole pipeline

---
 hadar/workflow/pipeline.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..3efc62d 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,8 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
@@ -171,7 +171,7 @@ class Pipeline:
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
             curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
                     % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
@@ -380,18 +380,15 @@ class FocusStage(Stage, ABC):
         :param timeline:
         :return:
         """
-        scenarios = timeline.columns.get_level_values(0).unique()
+        scenarios = Stage.get_scenarios(timeline)
 
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
-        for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+        output = []
+        for scn in scenarios:
+            data = self._process_scenarios(scn, timeline[scn].copy())
+            # declared outputs first, followed by columns not used by this stage
+            others = [c for c in data.columns if c not in self.plug.outputs]
+            output.append(data[list(self.plug.outputs) + others])
+        return pd.concat(output, axis=1, keys=scenarios)
 
 
 class Clip(Stage):
-- 
2.43.0


From 30581f72cb30dede1aded9bed9024bb7ca25a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:56 +0000
Subject: [PATCH 17/30] fix: adding a stage to a pipeline returns a new
 pipeline

---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 3efc62d..1f8045b 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -195,9 +195,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 9d001deb6fca73d3be7bd5af4b318bda4ac394d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:00 +0000
Subject: [PATCH 18/30] fix: stages and pipelines leave the given data
 unchanged

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1f8045b..e0ff57c 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -307,6 +307,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 672a48f18484b824af1143ecff2c41fb7df28bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:04 +0000
Subject: [PATCH 19/30] fix: RepeatScenario keeps data under its own label and
 its time index

---
 hadar/workflow/pipeline.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index e0ff57c..9741f8a 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -545,10 +545,14 @@ class RepeatScenario(Stage):
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
         data = np.tile(timeline.values, self.n)
 
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
+        # scenarios are numbered again, columns keep the data they are labelled with
+        serial = {scn: i for i, scn in enumerate(Stage.get_scenarios(timeline))}
+        columns = MultiIndex.from_tuples(
+            [
+                (k * len(serial) + serial[scn], name)
+                for k in range(self.n)
+                for scn, name in timeline.columns
+            ]
         )
 
-        return pd.DataFrame(data=data, columns=index)
+        return pd.DataFrame(data=data, index=timeline.index, columns=columns)
-- 
2.43.0


From eb7dbbd59b02f54a47b9a0b7444768d29bc6918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:09 +0000
Subject: [PATCH 20/30] fix: Fault honours seed 0

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 9741f8a..e4785ec 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -508,7 +508,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 2739bf0a9f4a600e7b4f3e8346f505621ddef76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:14 +0000
Subject: [PATCH 21/30] fix: Fault reaches downtime_max

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index e4785ec..fce7daa 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -518,7 +518,7 @@ class Fault(FocusStage):
         loss_qt = np.zeros(horizon)
         faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
         faults_duration = np.random.randint(
-            low=self.downtime_min, high=self.downtime_max, size=nb_faults
+            low=self.downtime_min, high=self.downtime_max + 1, size=nb_faults
         )
         for begin, duration in zip(faults_begin, faults_duration):
             loss_qt[begin : (begin + duration)] += self.loss
-- 
2.43.0


From a06f5ffb3af9a4be34cc10ded664587b1960e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:31 +0000
Subject: [PATCH 22/30] fix: Shuffler.add_pipeline returns the shuffler

---
 hadar/workflow/shuffler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..9fccac7 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -134,6 +134,7 @@ class Shuffler:
         pipeline.assert_to_shuffler()
 
         self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        return self
 
     def shuffle(self, nb_scn):
         """
-- 
2.43.0


From 194656ba7d7b0e8fd0c6cfd3e560021993b8f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:35 +0000
Subject: [PATCH 23/30] fix: timelines are sampled independently in the workers
 of the shuffler

---
 hadar/workflow/shuffler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 9fccac7..0db6ee3 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,6 +5,7 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
+import os
 
 import numpy as np
 import pandas as pd
@@ -91,6 +92,8 @@ def compute(params):
     :return: (name, sampling)
     """
     tl, nb, name = params
+    # workers are forked with the same random state, without reseed every timeline samples the same rows
+    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
     return name, tl.sample(nb)
 
 
-- 
2.43.0


From 9e50084c978f56378c2b72f86c435188040cb449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:01 +0000
Subject: [PATCH 24/30] fix: timelines are sampled by the shuffler itself,
 independently

---
 hadar/workflow/shuffler.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 0db6ee3..13b391e 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,7 +5,6 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
-import os
 
 import numpy as np
 import pandas as pd
@@ -86,15 +85,13 @@ class TimelinePipeline(Timeline):
 
 def compute(params):
     """
-    Wrapper method to call Timeline.sample used by multiprocessing.Pool.
+    Wrapper method to call Timeline.compute used by multiprocessing.Pool.
 
-    :param params: (timeline, number of scenarios, timeline name)
-    :return: (name, sampling)
+    :param params: (timeline, timeline name)
+    :return: (name, data to sample)
     """
-    tl, nb, name = params
-    # workers are forked with the same random state, without reseed every timeline samples the same rows
-    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
-    return name, tl.sample(nb)
+    tl, name = params
+    return name, tl.compute()
 
 
 class Shuffler:
@@ -148,7 +145,10 @@ class Shuffler:
         """
         # Compute pipelines
         pool = multiprocessing.Pool()
-        res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
-        )
-        return dict(res)
+        res = pool.map(compute, ((tl, name) for name, tl in self.timelines.items()))
+
+        # Sample here, samplers sent to workers start all with the same random state
+        return {
+            name: Timeline(data, sampler=self.timelines[name].sampler).sample(nb_scn)
+            for name, data in res
+        }
-- 
2.43.0


From 2b5cc2f4bb39bed79ccf14e99c3544e08acbcf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:13 +0000
Subject: [PATCH 25/30] fix: distribution of a converter in one scenario shows
 that scenario

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 62a9e2dcef2c8b615e9921d090683f7b43e9dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:19 +0000
Subject: [PATCH 26/30] fix: RAC matrix of a study that always, or never, has
 remaining capacity

---
 hadar/viewer/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1e20a06 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,8 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            x[x > 0] /= np.max(x[x > 0], initial=0)
+            x[x < 0] /= -np.min(x[x < 0], initial=0)
             return x
 
         fig = go.Figure(
-- 
2.43.0


From f510807e179933db1bc9534a0a53a2998f774a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:48 +0000
Subject: [PATCH 27/30] fix: numpy numbers are accepted as study data

---
 hadar/optimizer/domain/numeric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 4283431..af76f00 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -180,6 +180,12 @@ class NumericalValueFactory:
         if isinstance(value, dict) and "value" in value:
             value = value["value"]
 
+        # If data is a numpy number use the python number it holds
+        if isinstance(value, np.number) or (
+            isinstance(value, np.ndarray) and value.ndim == 0
+        ):
+            value = value.item()
+
         # If data is just a scalar
         if type(value) in [float, int, complex]:
             return ScalarNumericalValue(
-- 
2.43.0


From ed7fff273119c44dc1ff89c8485ac9915401c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:48 +0000
Subject: [PATCH 28/30] fix: numpy numbers of any width are written to JSON

---
 hadar/optimizer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index eed3aca..8ef390e 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -47,9 +47,9 @@ class JSON(DTO, ABC):
             return {k: JSON.convert(v) for k, v in value.items()}
         elif isinstance(value, list) or isinstance(value, tuple):
             return [JSON.convert(v) for v in value]
-        elif isinstance(value, np.int64):
+        elif isinstance(value, np.integer):
             return int(value)
-        elif isinstance(value, np.float64):
+        elif isinstance(value, np.floating):
             return float(value)
         elif isinstance(value, np.ndarray):
             return value.tolist()
-- 
2.43.0


From 272e968eddd679c20c168c4f822467704a371651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 29/30] fix: columns with an empty name do not reach the
 shuffler

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 13b391e..2f7c10a 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -78,7 +78,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From 3c276c260928ef46d783cfb4e019a6409854ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:00 +0000
Subject: [PATCH 30/30] fix: studies and results with several scenarios or time
 steps can be compared

---
 hadar/optimizer/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index 8ef390e..f5ad0e4 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -17,7 +17,22 @@ class DTO:
         return hash(tuple(sorted(self.__dict__.items())))
 
     def __eq__(self, other):
-        return isinstance(other, type(self)) and self.__dict__ == other.__dict__
+        return isinstance(other, type(self)) and DTO._same(
+            self.__dict__, other.__dict__
+        )
+
+    @staticmethod
+    def _same(a, b) -> bool:
+        """
+        Compare attributes. Arrays are compared as a whole, not cell by cell.
+        """
+        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+            return np.array_equal(a, b)
+        if isinstance(a, dict) and isinstance(b, dict):
+            return a.keys() == b.keys() and all(DTO._same(v, b[k]) for k, v in a.items())
+        if isinstance(a, (list, tuple)) and type(a) == type(b):
+            return len(a) == len(b) and all(DTO._same(x, y) for x, y in zip(a, b))
+        return a == b
 
     def __str__(self):
         return "{}({})".format(
-- 
2.43.0

