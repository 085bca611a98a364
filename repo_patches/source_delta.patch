From 41633700c7afa92eae0f8fb08bde43c2beec2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 01/38] fix: removing a vertex left its edges behind in its
 neighbours

map() is lazy on Python 3, so the incident edges were never removed. With them
removed, callers that remove vertices while looping over ingoing_vertices() or
outgoing_vertices() need the documented list rather than a live view.
---
 solver/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..d9b8244 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -53,8 +53,10 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in self.ingoing_vertices(vertex):
+            self.remove_edge(u, vertex)
+        for w in self.outgoing_vertices(vertex):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
@@ -259,7 +261,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex].keys())
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -269,7 +271,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex].keys())
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From a9aeba88ac24bed81972de31232a98d5376e18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 02/38] fix: constructing a graph from a graph gave an empty
 graph

map() is lazy on Python 3 (and set() was mapped over triples).
---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index d9b8244..f9aece2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From aad895e5ce177da66128b3510e6bec1bae43b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:49 +0000
Subject: [PATCH 03/38] fix: connected_via_outgoing and connected_via_ingoing
 raised NameError

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index f9aece2..4970bd8 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -423,7 +423,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -433,7 +433,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From 9540d5ec8080ddbdb647654bce666d67eda30280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:52 +0000
Subject: [PATCH 04/38] fix: connected_subsets raised an error for every
 non-empty graph

Lazy map(), an undefined name and a set of (unhashable) sets.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 4970bd8..f6aa54c 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -452,13 +452,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From 3826633b7f1320a84f5421452af0341d961c0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 05/38] fix: reversing a graph lost edge values and isolated
 vertices

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index f6aa54c..34f2e72 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -315,9 +315,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # copy vertices, including those without edges
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From a6760589ce2b1ed519d5afb8f3d55c9a9fc2d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:57 +0000
Subject: [PATCH 06/38] fix: converting a graph to a string raised NameError

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 34f2e72..8d97360 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -470,8 +470,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}} ".format(i, v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s.strip())
-- 
2.43.0


From 7ab7135c71c4d18bd01df0006445e1cc7755266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 07/38] fix: remove_bi_edge removed half of an edge and failed
 on loops

Without the reverse edge it removed the forward edge before raising, and a
bidirectional loop could be added but not removed.
---
 solver/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 8d97360..319649b 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -121,8 +121,14 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Bidirectional edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # a loop is its own reverse
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 880ca4b5ebdca19b7ae8a0f3b71fcdd51985cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 08/38] fix: Graph.vertices returned a live view instead of the
 documented list

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 319649b..f7dffd4 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -219,7 +219,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward.keys())
 
     def edges(self):
         """Get a list of the edges in this graph"""
-- 
2.43.0


From aa0fbcb40e623a68327ad98f48f6007cb3215817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 09/38] fix: propagation skipped methods and left stale values

Executing a method cleared the change flag of all its inputs, so another method
using one of these inputs was never executed: with x and y both derived from a
and z from x and y, a further method on y alone kept its old value after a was
set. propagate() already clears a flag once all methods on the variable ran.
---
 solver/method.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..5a186e6 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -421,6 +421,7 @@ by multiple methods".format(var))
             for method in methods:
                 self._do_execute(method)
 
+            # only now have all methods seen the change of this variable
             if pick in self._changed:
                 del(self._changed[pick])
 
@@ -485,11 +486,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 9d693b03768620141289fcef14af059bc5706c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 10/38] fix: SetMethod and AssignMethod could be neither
 executed nor printed

They referred to attributes that do not exist, and AssignMethod called the input map.
---
 solver/method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 5a186e6..a9855e0 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
@@ -161,15 +161,15 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
-        # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        # show the assigned input in the string representation
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 9d9f992f39b172cc6466cb63ff3b4d0bbdf67759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 11/38] fix: method graphs failed on values that cannot be
 compared with None

Values may be of any type, but e.g. vectors raise an error on comparison with None.
---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index a9855e0..8cf35e9 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -459,7 +459,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -482,7 +482,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From 47790a85efaa414ee3b1c95df3731829065b843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 12/38] fix: a method added without propagation was never
 executed

A later propagate() only executed it if one of its inputs happened to change
again; likewise for a method that raised an error while it was being added.
---
 solver/method.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 8cf35e9..b9ebb34 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -302,6 +302,9 @@ class MethodGraph(object):
         # collection of changed variables since last propagation
         self._changed = {}
 
+        # collection of methods not executed since they were added
+        self._pending = {}
+
     def variables(self):
         """Returns an iterator for the variables in the method graph"""
 
@@ -389,9 +392,11 @@ by multiple methods".format(var))
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
+        # the method is to be executed by the next propagation
+        self._pending[met] = 1
+
         if prop:
-            # execute includes propagation
-            self.execute(met)
+            self.propagate()
 
     def rem_method(self, met):
         """Removes a method"""
@@ -400,6 +405,10 @@ by multiple methods".format(var))
             raise Exception("Method not in graph")
 
         del(self._methods[met])
+
+        if met in self._pending:
+            del(self._pending[met])
+
         self._graph.remove_vertex(met)
 
     def propagate(self):
@@ -414,6 +423,9 @@ by multiple methods".format(var))
 
         logging.getLogger("method").debug("Propagating changes")
 
+        for method in list(self._pending.keys()):
+            self._do_execute(method)
+
         while len(self._changed) != 0:
             pick = list(self._changed.keys())[0]
             methods = self._graph.outgoing_vertices(pick)
@@ -475,6 +487,9 @@ by multiple methods".format(var))
         else:
             outmap = method.execute(inmap)
 
+        if method in self._pending:
+            del(self._pending[method])
+
         # update values in self._map
         # set output variables changed
         for var in method.outputs:
-- 
2.43.0


From e7cd52da897af6f87209f6ffbe8d38cdb3e65e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 13/38] fix: setting an unknown variable broke the method graph
 for good

The variable was recorded without a vertex, and every later propagation raised KeyError.
---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index b9ebb34..c6198cf 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -353,6 +353,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From e1b724cbaf3262000169c076b9dd55d6c903c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 14/38] fix: selection constraints could not be added to a
 constraint graph

Their list of variables hid the variables() method that constraint graphs call,
and converting any constraint to a string failed, for the same reason or because
the method was joined instead of its result (variables need not be strings).
---
 solver/geometric/constraint.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..171835a 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,7 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(var) for var in self.variables()]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -83,14 +83,14 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join([str(var) for var in self.variables()]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +119,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join([str(var) for var in self.variables()]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From fa273e77f7cd44d97bf1229747afabeb6fab1fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 15/38] fix: common_constraints raised NameError

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..ab952a0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 0db863acef7b488a460ddd6e9fc3b4ca18a95e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:15 +0000
Subject: [PATCH 16/38] fix: counting the constraints of a hedgehog raised
 NameError

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index ab952a0..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From 893b447c2858f784df8b4f29436b67531a1933b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 17/38] fix: distances and angles could not be hashed, compared
 or printed

The points of clusters are hashable names, but were wrapped in (unhashable)
arrays, so every search for common distances or angles raised TypeError.
---
 solver/geometric/relation.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..6129c05 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -20,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
@@ -49,12 +48,12 @@ class Distance(PointRelation):
 
         :param a: first point
         :param b: second point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -77,13 +76,13 @@ class Angle(PointRelation):
         :param a: first point
         :param b: second point
         :param c: third point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
-        :type c: :class:`~.np.ndarray`
+        :type a: object
+        :type b: object
+        :type c: object
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 1770a15a0606c3fb6f0c0bdd9d5ced516f9d8125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 18/38] fix: a hedgehog with two unique variables was accepted

The central variable was counted again when it was among the other variables.
---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..560e1fd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the other variables
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From 658aa886326eee521c871f8855893bbb7e324140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 19/38] fix: merged configurations forgot that they are
 underconstrained

Merging looks at the flag of both operands, but nothing ever set it.
---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..fd95fc4 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -125,6 +125,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 0cf6b0771ede8b528ac15ed3d0302bf7f7f8453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 20/38] fix: merging and comparing configurations depended on
 which points overlap

With three or more shared variables, the first two may have the same coordinates
while others do not. The rotation was then not determined: shared points did not
end up on each other, the merge was called underconstrained, and configurations
that can be rotated onto each other were different.
---
 solver/geometric/configuration.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index fd95fc4..1da1c9c 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -2,6 +2,7 @@
 coordinates"""
 
 import logging
+from itertools import combinations
 from ..geometry import Scalar, Vector, Matrix, distance_2p, make_hcs, \
 make_hcs_scaled, cs_transform_matrix
 
@@ -172,9 +173,15 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
-            v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            # get the first two shared variables, preferably ones whose
+            # coordinates do not overlap in either configuration
+            v1, v2 = list(shared)[:2]
+
+            for a, b in combinations(shared, 2):
+                if not Scalar.tol_zero(distance_2p(self.get(a), self.get(b))) \
+                and not Scalar.tol_zero(distance_2p(other.get(a), other.get(b))):
+                    v1, v2 = a, b
+                    break
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
-- 
2.43.0


From e84501c3ac2ed25e4ca868804bb6ba0586c0d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:26 +0000
Subject: [PATCH 21/38] fix: intersecting a circle and a line in two points
 raised AttributeError

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 519c2dd7f71a9d78a482702bb23f782f35402745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 22/38] fix: ray intersections failed on parallel rays and
 ignored the second ray

Parallel rays raised IndexError, and an intersection behind the origin of the
second ray was returned.
---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..87f26b7 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From a9a28996a61bce392129f690a8b2d4b08b5b3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:35 +0000
Subject: [PATCH 23/38] fix: outgoing_edges returned the edges turned round

An edge is the ordered pair of its start and end vertex.
---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index f7dffd4..78b8326 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -305,7 +305,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From 1f0adfd9216f8f1d8de24cb0164448aafce13fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 24/38] fix: adjacent_edges reported a loop twice

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 78b8326..e6064bb 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -313,7 +313,11 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return self.ingoing_edges(vertex) + self.outgoing_edges(vertex)
+        ingoing = self.ingoing_edges(vertex)
+
+        # a loop is both ingoing and outgoing, but only one edge
+        return ingoing + [edge for edge in self.outgoing_edges(vertex)
+            if edge not in ingoing]
 
     def reverse(self):
         """Get a copy of this graph with the edges reversed"""
-- 
2.43.0


From af99df71782ba24d0e396fb94f488977d6aaad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 25/38] fix: function constraints on unnamed callables could
 not be printed

---
 solver/geometric/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 171835a..f8cee62 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -122,7 +122,8 @@ class FunctionConstraint(SelectionConstraint):
         self._variables]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
+        return "{0}({1}, {2})".format(self.name, \
+        getattr(self.function, "__name__", self.function), \
         ", ".join([str(var) for var in self.variables()]))
 
 class NotClockwiseConstraint(FunctionConstraint):
-- 
2.43.0


From aa30360328cdb63b0a35507ce9bfc362812a7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 26/38] fix: constraint without variables could be added to a
 graph but not removed

---
 solver/geometric/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index f8cee62..7140fd7 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -285,6 +285,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph for the constraint
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
-- 
2.43.0


From 6922a575e1b5906a183e3aa074394126ad80e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 27/38] fix: method without variables could be added to a
 method graph but not removed

---
 solver/method.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index c6198cf..cd947f1 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -374,6 +374,8 @@ class MethodGraph(object):
         self._methods[met] = 1
 
         # update graph
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
-- 
2.43.0


From 5cf342ca64edf0be6ed513e43c1b7e25f4d5c219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 28/38] fix: degenerate angles with different end points
 compared equal

---
 solver/geometric/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 6129c05..2077ebe 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -89,7 +89,7 @@ class Angle(PointRelation):
             # check the middle point is identical, and that the other points are
             # the included
             return self.points[1] == other.points[1] \
-            and frozenset(self.points) == frozenset(other.points)
+            and frozenset(self.points[::2]) == frozenset(other.points[::2])
 
         # other object is not same type
         return False
-- 
2.43.0


From 33af9537f5adc903822f6934fc7466564e40f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 29/38] fix: distances and angles were not hashable

Defining __eq__ in a subclass drops the inherited __hash__, so every search for
common distances or angles raised TypeError.
---
 solver/geometric/relation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 2077ebe..4c6f6cd 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -63,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining __eq__ would otherwise make instances unhashable
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -93,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining __eq__ would otherwise make instances unhashable
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From 67ade80a360e5e338a4c56592dbd02fc008d0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 30/38] fix: circle-line intersections depended on the length
 of the direction

With a short direction vector every line was taken for a tangent (through the
point closest to the centre, however far from the circle), with a long one
tangents were missed.
---
 solver/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 87f26b7..68df399 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -480,8 +480,11 @@ def cl_int(p1, r, p2, v):
     D = p.x * v.y - v.x * p.y
     E = r * r * d2 - D * D
 
+    # tolerance of E, which scales with the direction
+    tol = Scalar.abs_tol * d2
+
     # check that d2 and E are both > 0 within tolerance
-    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
+    if d2 > 0 and Scalar.tol_gt(E, 0, abs_tol=tol):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
@@ -489,7 +492,7 @@ def cl_int(p1, r, p2, v):
         y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
-    elif Scalar.tol_zero(E):
+    elif Scalar.tol_zero(E, abs_tol=tol):
         x1 = p1.x + D * v.y / d2
         y1 = p1.y + -D * v.x / d2
 
-- 
2.43.0


From d720bdcdb84d6d322400196959d515f7ea463398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 31/38] fix: line intersections depended on the lengths of the
 directions

Crossing lines with short direction vectors were taken for parallel, and a short
upright direction gave a wrong point.
---
 solver/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 68df399..294cc43 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -546,17 +546,15 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    cross = v1.x * v2.y - v1.y * v2.x
+
+    # compare directions, whatever their lengths
+    if Scalar.tol_zero(cross, abs_tol=Scalar.abs_tol * v1.length * v2.length):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / cross
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From 27916d2f0c8cc79cce718ca07771d9a912559399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 32/38] fix: rays with short directions reached behind their
 origin

The distance behind the origin was compared with the tolerance only after
scaling it with the length of the direction.
---
 solver/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 294cc43..7eb85fa 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -523,7 +523,7 @@ def cr_int(p1, r, p2, v):
     # loop over solutions of the circle and line intercept
     for s in cl_int(p1, r, p2, v):
         # check if a is >= 0 within tolerance
-        if Scalar.tol_ge((s - p2).dot(v), 0):
+        if Scalar.tol_ge((s - p2).dot(v), 0, abs_tol=Scalar.abs_tol * v.length):
             solutions.append(s)
 
     return solutions
@@ -580,7 +580,8 @@ def lr_int(p1, v1, p2, v2):
     s = ll_int(p1, v1, p2, v2)
 
     # check if s > 0 and a >= 0 within tolerance
-    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
+    if len(s) > 0 \
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0, abs_tol=Scalar.abs_tol * v2.length):
         return s
     else:
         # lines intersect behind ray
@@ -608,8 +609,9 @@ def rr_int(p1, v1, p2, v2):
     s = ll_int(p1, v1, p2, v2)
 
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
-    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
+    if len(s) > 0 \
+    and Scalar.tol_ge((s[0] - p1).dot(v1), 0, abs_tol=Scalar.abs_tol * v1.length) \
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0, abs_tol=Scalar.abs_tol * v2.length):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From e65a111b679e87b59854ee1ff7af246ee9e24b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 33/38] fix: large matrices could not be multiplied or inverted

Sizes were compared by identity, which fails above 256.
---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 7eb85fa..d5827c8 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
-- 
2.43.0


From 97e169f22be253d2ca76420328362292b8667b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 34/38] fix: transposing a vector raised AttributeError

The transpose of a column vector is a row, not a vector.
---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d5827c8..9f4b706 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return(Matrix(t_matrix))
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From 30abaf1a07980bbb726b1673fef3e202f20c4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 35/38] fix: tangent circles met in two points or not at all,
 depending on their order

The chord was compared with a tolerance that depends on which circle comes
first, and not at all when rounding made it slightly too long.
---
 solver/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 9f4b706..e236c11 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -423,11 +423,11 @@ def cc_int(p1, r1, p2, r2):
     a = r1*r1
     b = u*u
 
-    # check that a < b within tolerance
-    # FIXME: what's going on here?  elif block seems to repeat earlier check
-    if Scalar.tol_lt(a, b):
+    # the squared half length of the chord is a - b (whichever circle is first):
+    # no solutions if negative, one if zero within tolerance
+    if Scalar.tol_lt(a - b, 0):
         return []
-    elif a < b:
+    elif Scalar.tol_zero(a - b):
         v = 0.0
     else:
         v = math.sqrt(a-b)
-- 
2.43.0


From 4bcfa81eee41e6e9eabd22707082c2d0b48590bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 36/38] fix: vectors with one negative coordinate counted as
 all negative

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e236c11..bd6c22e 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -314,7 +314,7 @@ class Vector(Matrix):
         Assumes 0 is positive
         """
 
-        return not self.is_positive()
+        return self.x < 0 and self.y < 0
 
     def tol_eq(self, other, *args, **kwargs):
         return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \
-- 
2.43.0


From a4d65a959c4bf62c3acd568ece0bd7ec4fb06552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 37/38] fix: circle-line intersection with a direction of zero
 length divided by zero

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index bd6c22e..abc3455 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -492,7 +492,7 @@ def cl_int(p1, r, p2, v):
         y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
-    elif Scalar.tol_zero(E, abs_tol=tol):
+    elif d2 > 0 and Scalar.tol_zero(E, abs_tol=tol):
         x1 = p1.x + D * v.y / d2
         y1 = p1.y + -D * v.x / d2
 
-- 
2.43.0


From d0488d9b19fc69487473583504278ddfaeab07c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 38/38] fix: comparing a configuration with another kind of
 object raised an error

---
 solver/geometric/configuration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 1da1c9c..d97afdb 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -242,7 +242,10 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            # other object is not same type
+            return False
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0

