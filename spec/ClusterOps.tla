----------------------------- MODULE ClusterOps -----------------------------
(* Clusters and relations (solver/geometric/cluster.py, relation.py) as the  *)
(* sets of distances and angles they fix.  A cluster is [t, c, x]: type "R"  *)
(* (rigid), "H" (hedgehog) or "B" (balloon), centre c (0 unless a hedgehog), *)
(* and its points x (without the centre for a hedgehog).                     *)
(* A distance is a set of two points, an angle <<apex, {end, end}>>.          *)
EXTENDS Integers, Sequences, FiniteSets

R(S)    == [t |-> "R", c |-> 0, x |-> S]
H(p, S) == [t |-> "H", c |-> p, x |-> S]
B(S)    == [t |-> "B", c |-> 0, x |-> S]
None    == [t |-> "none", c |-> 0, x |-> {}]

Valid(k) == CASE k.t = "R" -> TRUE
              [] k.t = "H" -> Cardinality(k.x) >= 2 /\ k.c \notin k.x
              [] k.t = "B" -> Cardinality(k.x) >= 3
              [] OTHER -> FALSE
Points(k) == IF k.t = "H" THEN k.x \cup {k.c} ELSE k.x
Clusters(P) == {R(S) : S \in SUBSET P}
          \cup UNION {{H(p, S) : S \in {T \in SUBSET (P \ {p}) : Cardinality(T) >= 2}} : p \in P}
          \cup {B(S) : S \in {T \in SUBSET P : Cardinality(T) >= 3}}

Two(S) == {T \in SUBSET S : Cardinality(T) = 2}
Dist(k) == IF k.t = "R" THEN Two(k.x) ELSE {}
Ang(k)  == IF k.t = "H" THEN {<<k.c, T>> : T \in Two(k.x)}
           ELSE IF k.t = "none" THEN {}
           ELSE UNION {{<<p, T>> : T \in Two(k.x \ {p})} : p \in k.x}
CommonDist(a, b) == Dist(a) \cap Dist(b)
CommonAng(a, b)  == Ang(a) \cap Ang(b)

\* the cluster with exactly these distances and angles
FromConstraints(D, A) ==
    IF D = {} /\ A = {} THEN None
    ELSE IF D # {} THEN R(UNION D)
    ELSE LET apexes == {a[1] : a \in A}
         IN  IF Cardinality(apexes) = 1 THEN H(CHOOSE p \in apexes : TRUE, UNION {a[2] : a \in A}) ELSE B(apexes)
Inter(a, b) == FromConstraints(CommonDist(a, b), CommonAng(a, b))

\* the constructors: sequences of points, possibly repeated
MakeR(q)    == R({q[i] : i \in 1..Len(q)})
MakeH(p, q) == H(p, {q[i] : i \in 1..Len(q)} \ {p})
MakeB(q)    == B({q[i] : i \in 1..Len(q)})

\* relations given by sequences of points
SameRelation(p, q) ==
    /\ Len(p) = Len(q)
    /\ IF Len(p) = 2 THEN {p[1], p[2]} = {q[1], q[2]}
       ELSE p[2] = q[2] /\ {p[1], p[3]} = {q[1], q[3]}

---------------------------------------------------------------------------
\* the intersection fixes precisely what both fix, and is a valid cluster
InterExact(a, b) == LET i == Inter(a, b) IN
    /\ Dist(i) = CommonDist(a, b) /\ Ang(i) = CommonAng(a, b)
    /\ i # None => Valid(i)
    /\ i = Inter(b, a)
InterSelf(a) == Inter(a, a) = IF Dist(a) = {} /\ Ang(a) = {} THEN None ELSE a
Choose2(n) == (n * (n - 1)) \div 2
Choose3(n) == (n * (n - 1) * (n - 2)) \div 6
CountsOk(a) == LET n == Cardinality(a.x) IN
    /\ Cardinality(Dist(a)) = IF a.t = "R" THEN Choose2(n) ELSE 0
    /\ Cardinality(Ang(a)) = IF a.t = "H" THEN Choose2(n) ELSE 3 * Choose3(n)
=============================================================================
