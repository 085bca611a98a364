----------------------------- MODULE ClusterMC -----------------------------
(* Chains of intersections: the state is the current cluster (or None, where *)
(* a chain ends); a step intersects it with any other cluster.  Emits every  *)
(* state with its counts and every transition with the common constraints.   *)
EXTENDS ClusterOps, TLC, Json
CONSTANT N
Point == 1..N
All == Clusters(Point)
VARIABLES k, act
vars == <<k, act>>
Init == k \in All /\ act = k
Next == k # None /\ \E o \in All : act' = o /\ k' = Inter(k, o)
Spec == Init /\ [][Next]_vars
View == k
EmitState == PrintT("ST " \o ToJson([k |-> k, nd |-> Cardinality(Dist(k)), na |-> Cardinality(Ang(k))]))
EmitStep  == PrintT("TR " \o ToJson([k |-> k, o |-> act', r |-> k', d |-> CommonDist(k, act'), a |-> CommonAng(k, act')]))
Laws == /\ k # None => Valid(k) /\ CountsOk(k) /\ InterSelf(k) /\ \A o \in All : InterExact(k, o)
\* intersecting only loses constraints, and everything lost is not common
Monotone == [][Dist(k') = Dist(k) \cap Dist(act') /\ Ang(k') = Ang(k) \cap Ang(act')]_vars
=============================================================================
