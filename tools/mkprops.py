#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
GR, ME, CO, CL, CF, RE, GE = ("solver/graph.py", "solver/method.py", "solver/geometric/constraint.py",
    "solver/geometric/cluster.py", "solver/geometric/configuration.py", "solver/geometric/relation.py", "solver/geometry.py")
gstate = [("_forward/_reverse", "outgoing / incoming adjacency with edge values", GR)]
mstate = [("_map", "value of every variable", ME), ("_changed", "variables whose change is still to be propagated", ME),
          ("_methods", "methods in the graph", ME), ("_graph", "bipartite dependency graph", ME)]

p("G01", "A graph always equals the directed graph its history of calls describes",
  "After any sequence of adding, setting and removing vertices and (bi)edges, every query of a graph (vertices, edges, edge values, has-vertex/edge, ingoing, outgoing and adjacent vertices and edges) answers as the mathematical directed graph built by that history would, and the ingoing view is always the exact mirror of the outgoing view. Adding an edge that exists keeps its value while setting it replaces it; lists returned by queries are snapshots, with no duplicates, that later changes do not alter. A call that fails (missing vertex or edge) leaves the graph exactly as it was.",
  ["histories", "inputs"], "every finite sequence of public mutating calls, over any hashable vertices (including falsy and hash-colliding ones), self-loops and edge values",
  "Two unit tests build one fixed four-vertex graph and look at edges() only; no test removes anything, sets a value, or reads ingoing vertices, so nothing relates the two adjacency tables after a history.",
  [GR], [("paired updates of both adjacency dictionaries", "Graph.add_edge / set / remove_edge / remove_vertex")], gstate, ["Graph public queries"])
p("G02", "Removing a vertex or an edge removes exactly that and leaves no residue",
  "After a vertex is removed, no query reports it or any edge that touched it, all other vertices, edges and edge values are untouched, and adding a vertex with the same name later starts with no edges. After an edge (or both directions of a bidirectional edge) is removed, exactly that is gone in both the outgoing and the ingoing direction.",
  ["histories"], "every reachable graph, every vertex or edge removed from it, and every continuation (re-adding, querying, removing again)",
  "No existing test removes a vertex or an edge.",
  [GR], [("incident-edge removal before the vertex is dropped", "Graph.remove_vertex"), ("removal from both tables", "Graph.remove_edge")], gstate, ["Graph public queries"])
p("G03", "Copies, subgraphs and reversed graphs are exact and independent",
  "A copy (by method or by construction from a graph) has the same vertices, edges and edge values; a subgraph has exactly the requested vertices that exist, the edges between them and their values; a reversed graph has the same vertices with every edge, and its value, turned round. Deriving a graph never changes the source, and later changes to either one are never visible in the other.",
  ["histories", "inputs"], "every reachable graph, every vertex subset (including unknown vertices), every interleaving of later changes to source and derived graph",
  "Tests check edge names of one reversed graph and one subgraph; never values, isolated vertices, the constructor copy, or independence afterwards.",
  [GR], [("rebuild through add/set on a fresh graph", "Graph.__init__ / subgraph / copy / reverse")], gstate, ["Graph public queries on source and derived graphs"])
p("G04", "Paths, reachability and connected components are exact",
  "A path query returns a real path along existing edges from start to end (a cycle when start equals end) whenever one exists, and an empty list exactly when none does. The connectedness queries (undirected, outgoing only, ingoing only) return exactly the other vertices reachable that way, without duplicates; the connected subsets are exactly the partition of the vertices into undirected components.",
  ["inputs", "histories"], "every directed graph and every pair of its vertices, in whatever order the graph was built",
  "No test calls path, connected, connected_via_* or connected_subsets directly; cycle detection in method graphs exercises path on one chain.",
  [GR], [("worklist search with trails", "Graph.path"), ("worklist closure", "Graph.connected / connected_subsets")], gstate, ["Graph.path", "Graph.connected*"])

p("M01", "A propagated method graph is never stale",
  "Once propagation has finished, every variable determined by a method has the value that method yields on the current values of its inputs, or no value at all (None) when an input has no value or the method yields nothing for it. Variables not downstream of a change keep their values. The only exception is a determined variable that was itself set explicitly: it keeps the set value, which its dependants use, until something upstream of it changes.",
  ["histories", "inputs", "programs"], "every acyclic method graph (chains, diamonds, shared inputs, multi-output and partially defined methods), every history of adding and removing methods and variables and setting values, and every type of value",
  "Tests update one variable of one two-input sum, and one chain built in dependency order; no diamond, no None, no removal, no fan-out is ever propagated.",
  [ME, GR], [("worklist propagation over changed variables", "MethodGraph.propagate / _do_execute")], mstate, ["MethodGraph.get for every variable after each call"])
p("M02", "Deferred propagation reaches the same result as immediate propagation",
  "Setting values or adding methods without propagation changes nothing but the variables set (or declared) by those calls; one later propagation brings the graph to the very state that propagating after every call would have reached (when the variables set are not themselves determined by a method). The result does not depend on the order in which the deferred changes were made or in which the changes are processed, propagation always terminates, and propagating again changes nothing.",
  ["schedules", "histories"], "every batch of deferred sets and additions on every acyclic method graph, every order of processing pending changes",
  "No test passes prop=False or calls propagate.",
  [ME], [("pending-change bookkeeping", "MethodGraph.set / add_method / propagate")], mstate, ["MethodGraph.get", "MethodGraph.propagate"])
p("M03", "Method graphs stay acyclic, single-determined; refused methods leave no trace",
  "Adding a method is refused exactly when one of its outputs is already determined by another method (determine error) or would come to depend on itself (cycle error); otherwise it is accepted. After a refusal the methods, all values and all later behaviour are as before, except that variables the method named are known, without a value. Adding a method that is already present changes nothing.",
  ["histories", "programs"], "every method graph reachable by additions, removals and earlier refusals, and every candidate method",
  "Tests provoke one refusal of each kind as the last step and never look at the graph afterwards, nor add the same method again once the obstacle is removed.",
  [ME, GR], [("post-insertion checks with rollback", "MethodGraph.add_method")], mstate, ["exceptions of add_method", "MethodGraph.methods / variables / get"])
p("M04", "Removing methods and variables is complete",
  "Removing a method removes only it: all variables keep their values, its outputs may be determined by another method, and it is never executed again. Removing a variable removes it, its pending change and exactly the methods that use or determine it; clearing removes every variable and every method connected to one, after which names start afresh. Removing something that is not in the graph is refused without effect.",
  ["histories"], "every reachable method graph and every continuation after a removal (setting, adding, propagating)",
  "No test removes a method or a variable or clears a graph.",
  [ME, GR], [("cascade from variable to methods to graph vertices", "MethodGraph.rem_variable / rem_method / clear")], mstate, ["MethodGraph.methods / variables / get", "executions observed through methods"])
p("M05", "A method that fails during propagation loses no update",
  "If a method raises while changes are being propagated or while it is being added, the error reaches the caller (a method failing while added still counts as added), every value explicitly set stays set, and variables not downstream of a pending change keep their values. Once the method no longer fails (or has been removed), one propagation makes the graph as up to date as if nothing had failed.",
  ["fault_sequences", "histories"], "every method graph, every point at which a method may raise, any number of failing attempts and any calls in between",
  "No test has a method that raises.",
  [ME], [("a change stays pending until all its methods have run", "MethodGraph.propagate"), ("outputs written only after execute returned", "MethodGraph._do_execute")], mstate, ["MethodGraph.get after recovery"])
p("M06", "A multi-valued method yields exactly the results over all input combinations",
  "The output of a multi-valued method is exactly the collection of the results for every combination of one alternative from each multi-valued input together with the single-valued inputs: none missing, none extra, no combination mixed up, and none when some multi-valued input has no alternatives. A multi-valued method is refused unless it has exactly one output and that output is a multi-valued variable.",
  ["inputs", "programs"], "any number and position of multi-valued inputs, any sets of alternatives (empty, singleton, overlapping), changed any number of times",
  "One test with one pair of two-element sets and commutative, order-insensitive operations.",
  [ME], [("recursion over multi-valued inputs", "MultiMethod._recurse_execute")], mstate, ["MultiMethod.execute", "MethodGraph.get of the output"])
p("M07", "Built-in methods compute what they document, also on missing input",
  "The addition, subtraction, assignment, set-value and sum-and-product methods assign exactly the sum, difference, input value, stored value, and sum and product to their output, for operands of any type supporting the operation, including falsy values. When an input is missing or has no value, addition and subtraction yield an empty result rather than an error or a guess, and assignment yields an empty result when its input is missing; executing a method never changes the map it is given.",
  ["inputs"], "all operand values (numbers, vectors, falsy values, None, missing keys) and repeated or shared variable names",
  "Tests execute only sums of positive integers; subtraction, assignment and set-value methods are never executed.",
  [ME], [("execute of each built-in method", "AddMethod / SubMethod / SetMethod / AssignMethod / SumProdMethod")], [], ["Method.execute", "MethodGraph.get"])

p("C01", "A constraint graph answers every query from the constraints added to it",
  "After any history of adding and removing variables and constraints, the variables and constraints listed are exactly those present, the constraints on a variable are exactly the present constraints that mention it, the constraints on any of several variables are exactly their union, and the constraints on all of several variables exactly their intersection (none for an empty selection). No result has duplicates, lists of constraints already returned do not change under later modification, and constraints of every kind, selection constraints included, can be added. Asking changes neither the graph nor the selection asked about, and graphs that hold the same constraints do not affect each other.",
  ["histories", "inputs"], "every finite history of calls, every selection of variables (unknown and repeated ones too), constraints of any arity and kind",
  "Tests query one fixed chain of three constraints without removing anything.",
  [CO, GR], [("bipartite graph between variables and constraints", "ConstraintGraph")], [("_variables/_constraints/_graph", "members and incidence", CO)], ["ConstraintGraph queries"])
p("C02", "Removing a variable or constraint from a constraint graph is complete",
  "Removing a constraint removes exactly it from every query and keeps all variables; removing a variable removes it and exactly the constraints that mention it, from the queries on every other variable too. Adding the same variable or constraint again restores it with no memory of what was removed, and removing something absent has no effect.",
  ["histories"], "every reachable constraint graph, every member removed, every continuation",
  "No test removes anything from a constraint graph.",
  [CO, GR], [("cascade through the incidence graph", "ConstraintGraph.rem_variable / rem_constraint")], [("_variables/_constraints/_graph", "members and incidence", CO)], ["ConstraintGraph queries"])
p("C03", "Selection constraints accept exactly the point triples their name says",
  "A not-clockwise, not-counter-clockwise, not-obtuse or not-acute constraint is satisfied by a mapping exactly when the points of its own variables, taken in the declared order, are not strictly of the named kind: degenerate, flat and right-angled triples satisfy every constraint that does not exclude them. A function constraint applies its function to the values of its variables in declared order and is satisfied exactly when it returns True; a plus constraint is satisfied exactly when its first two values add up to the third. Other entries of the mapping never matter and evaluation changes nothing.",
  ["inputs"], "all triples of points (any position, orientation, scale; degenerate ones included), all variable orders and repeated variables",
  "Tests evaluate two or three hand-picked triples per constraint.",
  [CO, GE], [("orientation and angle predicates applied to mapped points", "NotClockwiseConstraint / NotCounterClockwiseConstraint / NotObtuseConstraint / NotAcuteConstraint / FunctionConstraint.satisfied")], [], ["satisfied()"])

p("K01", "The intersection of two clusters carries exactly their common constraints",
  "For any two clusters (rigid, hedgehog, balloon) the intersection is a cluster that fixes precisely the distances and angles fixed by both, and there is no intersection exactly when they have no distance or angle in common. It is therefore independent of argument order, gives an equal cluster when intersecting a cluster with itself, is always itself a valid cluster, and is a cluster of its own: neither making it nor flagging or changing it afterwards changes an operand, or the other way round.",
  ["inputs", "programs"], "all pairs (and chains) of clusters over any hashable points, any overlap",
  "Tests intersect one triple of fixed clusters.",
  [CL], [("case analysis by cluster type", "Cluster.intersection / intersect_rigid / intersect_hedgehog / intersect_balloon")], [("vars / c_var / x_vars", "points of a cluster", CL)], ["type, points and centre of the intersection"])
p("K02", "Common-constraint sets and constraint counts are exact",
  "The common distances, common angles and common constraints of two clusters are exactly the distances and angles fixed by both, each reported once, whatever the order of the clusters. The numbers of distances, angles and constraints a cluster reports equal the sizes of the sets of distances and angles it fixes, which are its common constraints with itself.",
  ["inputs"], "all pairs of clusters of every type and size",
  "One test checks the distance count of one rigid; no common-constraint function is ever called.",
  [CL, RE], [("enumeration of shared pairs and triples", "common_distances / common_angles_* / n_distances / n_angles")], [], ["common_distances / common_angles / common_constraints / n_constraints"])
p("K03", "Relations are identified by the points they relate; clusters are well formed",
  "Two distances are equal exactly when they join the same two points in either order; two angles are equal exactly when they have the same apex and the same two end points in either order; a distance never equals an angle; equal relations hash alike, so collections hold each once. A hedgehog or balloon with fewer than three distinct points is always refused with a value error, any other is accepted with exactly the points given, repeated points counting once; it keeps them whatever becomes of the collection they were given in or of a list of them it gives out.",
  ["inputs"], "all points of any hashable type, all orders and repetitions",
  "Relations are never constructed by a test; one test constructs two invalid clusters but stops at the first error.",
  [RE, CL], [("equality and hash of relations", "Distance / Angle / PointRelation.__hash__"), ("size checks in constructors", "Hedgehog.__init__ / Balloon.__init__")], [], ["==, hash, set membership, constructors"])

p("F01", "Configurations are equal exactly when a rotation plus translation relates them",
  "Two configurations are equal exactly when they name the same variables and some rotation plus translation carries every point of one onto the same-named point of the other (within tolerance); reflections, scalings and any moved point make them different. The answer does not depend on variable names, on the order of construction, on which operand comes first, or on points that coincide; equal configurations have equal hashes, and nothing but a configuration equals one (comparing is never an error).",
  ["inputs"], "all pairs of configurations with any number of points, including coincident and collinear points, and all variable names",
  "Tests compare six two-point configurations, and only for equality.",
  [CF, GE], [("alignment on two shared points, then point-wise comparison", "Configuration.__eq__ / transformation_matrix / makehash")], [("mapping", "variable -> point", CF)], ["==, hash"])
p("F02", "Merging keeps the first configuration and moves the other rigidly onto it",
  "A merged configuration has exactly the variables of both; every point of the first keeps its coordinates, and the points taken only from the other are the other's points moved by one rotation plus translation (no reflection or scaling). That motion brings the shared points into coincidence whenever a rotation plus translation can do so; otherwise one shared point coincides and, where two shared points are apart in both, one of these lies in the right direction from it.",
  ["inputs"], "all pairs of configurations: any number of shared points (none, one, many), coincident or inconsistent shared points, any names",
  "No test merges configurations.",
  [CF, GE], [("coordinate-system alignment and point transfer", "Configuration.merge / transformation_matrix / transform / add")], [("mapping", "variable -> point", CF)], ["mapping of the merged configuration"])
p("F03", "The underconstrained flag is exact for every merge, and sticks",
  "A merge reports underconstrained, both in its returned flag and on the merged configuration, exactly when an operand was already underconstrained, or the operands share no variable, or share one variable while both have others, or share several variables all of which coincide in position in one of the operands. Copies keep the flag; merging never clears or sets the flag of an operand.",
  ["inputs", "histories"], "all pairs of configurations and all chains of merges and copies",
  "No test merges or copies a configuration.",
  [CF], [("case split on the number of shared variables", "Configuration.transformation_matrix / merge / copy")], [("underconstrained", "not-unique flag", CF)], ["flag returned by merge", "underconstrained attribute"])
p("F04", "Configurations are immutable values; derived ones contain exactly what was asked",
  "No operation on a configuration changes it, its operands, its points or the mapping it was built from. Adding yields all points of the first plus the points of the other whose variables are new; selecting yields exactly the chosen variables with their points and is refused for an unknown one; copying yields an equal configuration; transforming by a homogeneous matrix yields each point mapped by that matrix and divided by its homogeneous coordinate.",
  ["inputs", "histories"], "all configurations, all variable selections, all invertible homogeneous matrices, all sequences of operations on shared objects",
  "No test calls add, select, copy or transform, or looks at an operand afterwards.",
  [CF, GE], [("fresh mapping for every derived configuration", "Configuration.add / select / copy / transform")], [("mapping", "variable -> point", CF)], ["mapping of results and operands"])

p("P01", "Orientation and angle predicates classify every triple exactly and consistently",
  "Every triple of points is exactly one of clockwise, counter-clockwise or flat, according to the sign of its oriented area (flat within tolerance); reversing a triple swaps the first two and rotating it cyclically changes nothing. The three-point angle is the angle at the middle point between the two arms, positive for clockwise and negative for counter-clockwise triples (and never negative for flat ones), in [-pi, pi], and None exactly when an arm has no length; acute and obtuse hold exactly for angles below and above a right angle, never both, and never for a missing angle.",
  ["inputs"], "all triples of points at all positions and scales, including collinear, coincident and nearly degenerate ones",
  "Tests reach the predicates only through a few constraint examples; angle values, flat and reversed triples are never checked.",
  [GE], [("signed area and clipped arc cosine", "is_clockwise / is_counterclockwise / is_flat / angle_3p / is_acute / is_obtuse")], [], ["return values"])
p("P02", "Line and ray intersections are sound and complete",
  "Two lines intersect in exactly one returned point, lying on both, unless they are parallel (within tolerance), when nothing is returned; the lengths and senses of line directions do not matter. A ray meets a line, or another ray, in that same point exactly when it lies on or in front of the origin of every ray involved; otherwise, and always for parallel directions (a direction of zero length included), the result is empty and never an error.",
  ["inputs"], "all base points and directions: every slope (horizontal and vertical too), every orientation and argument order, parallel and coincident lines, hits at a ray origin",
  "No collected test calls an intersection function.",
  [GE], [("linear solve and direction tests", "ll_int / lr_int / rr_int")], [], ["returned point lists"])
p("P03", "Circle intersections are sound and complete",
  "Intersecting a circle with a circle, a line or a ray returns exactly the points on both: two distinct points when they cross, one when they are tangent, none when they are apart, nested or concentric, and for a ray only those on or in front of its origin. The result never depends on which circle comes first or on the length or sense of a line's direction (with a zero direction there is no point), and intersecting never raises an error.",
  ["inputs"], "all centres, non-negative radii and directions in general and in tangent, nested, axis-parallel and degenerate position",
  "No collected test calls an intersection function.",
  [GE], [("discriminant case analysis with tolerances", "cc_int / cl_int / cr_int")], [], ["returned point lists"])
p("P04", "Tolerant comparisons form a coherent order",
  "Two finite numbers are tolerantly equal exactly when they differ by at most the absolute tolerance plus the relative tolerance times the size of the second; for every pair exactly one of tolerantly less, equal or greater holds, and less-or-equal and greater-or-equal are exactly their unions with equality. Given tolerances replace the defaults everywhere; exact vector comparisons and tolerant vector equality hold exactly when they hold for both coordinates, and the other tolerant vector comparisons combine the two as they do for numbers.",
  ["inputs"], "all pairs of numbers or vectors, all tolerances including zero, values on and next to the tolerance boundary",
  "Tests use tolerant equality as an assertion helper on values that agree to rounding; no other comparison and no tolerance argument is tested.",
  [GE], [("single tolerance formula", "Scalar.tol_eq / tol_zero / tol_gt / tol_lt / tol_ge / tol_le, Vector comparisons")], [], ["return values"])
p("P05", "Coordinate systems and matrices obey linear algebra",
  "Matrix product, transpose, identity, solve and inverse are the mathematical ones, for every conforming shape, and non-conforming products, non-square inverses and vectors made of anything but a two-row column are refused; rounding a matrix rounds each entry to the given number of decimals (four by default), in place. The coordinate system built from two points has its origin at the first, its first axis towards the second (unit length, or the full length when scaled) and its second axis a quarter turn counter-clockwise from it, and is None exactly when the points coincide; the transformation between two systems carries the one exactly onto the other, and nothing but rounding changes an operand.",
  ["inputs"], "all matrices of small shapes, all pairs of points and all pairs of coordinate systems",
  "No test constructs a matrix or a coordinate system directly.",
  [GE], [("list-of-rows arithmetic and linear solve", "Matrix / make_hcs / make_hcs_scaled / cs_transform_matrix")], [], ["elements of results and operands"])
p("P06", "Vector arithmetic and rotation are exact plane geometry",
  "Adding, subtracting, multiplying and dividing a vector by a vector or a number act on each coordinate, negation, dot product, length and azimuth are the mathematical ones, and rotation by an angle in degrees turns the vector counter-clockwise about the origin, preserving length, adding angles and being undone by the opposite angle. A vector is positive when no coordinate is below zero and negative when both are; list-style access (also with slices) yields its coordinates in order. Every operation returns a new vector and leaves its operands as they were; a vector made from another vector or from a two-row column matrix is an equal, independent copy.",
  ["inputs"], "all coordinates and angles (negative, zero, beyond a full turn) and all operand kinds",
  "Tests use one or two fixed vectors; rotation is only checked for round trips, which a wrong sense of rotation passes.",
  [GE], [("coordinate-wise operators and rotation formula", "Vector")], [], ["coordinates of results and operands"])
p("R01", "Any object can be rendered in any state, and rendering changes nothing",
  "Converting any graph, method, method graph, constraint, constraint graph, cluster, relation or configuration to text succeeds in every reachable state and for every kind of hashable name. The text names every current member (vertices; methods and variables; constraints; points) and no removed one, and neither rendering nor turning on debug logging affects any result.",
  ["histories", "inputs"], "all objects in all reachable states, names of any hashable type",
  "No test renders an object; the library logs objects only when debugging is on, where formatting errors are swallowed.",
  [GR, ME, CO, CL, CF, RE], [("__str__ methods", "all classes")], [], ["str()"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
