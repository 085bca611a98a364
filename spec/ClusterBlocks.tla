--------------------------- MODULE ClusterBlocks ---------------------------
(* Clusters of any number of points: the points are those of some intervals  *)
(* of 1..N.  What two of them share has a closed form: the distances are the *)
(* pairs of one set of points, the angles those with an apex of one set and  *)
(* two ends of another.  With a small N the closed forms are compared with   *)
(* ClusterOps for every pair of clusters; with a large N they are replayed   *)
(* on real clusters.                                                         *)
EXTENDS ClusterOps, Intervals, TLC, Json
CONSTANTS N, Cut, Steps, Small
VARIABLES a, b, n
vars == <<a, b, n>>

\* block clusters: [t, c, x] as in ClusterOps, x a set of intervals
Whole(k) == IF k.t = "H" THEN k.x \cup {<<k.c, k.c>>} ELSE k.x
OkB(k) == CASE k.t = "R" -> TRUE [] k.t = "H" -> Size(k.x) >= 2 [] k.t = "B" -> Size(k.x) >= 3
Nothing == [t |-> "none", c |-> 0, x |-> {}]
Flat(k) == [k EXCEPT !.x = Span(k.x)]

\* common distances: the pairs of these points
DistPts(p, q) == IF p.t = "R" /\ q.t = "R" THEN Meet(p.x, q.x) ELSE {}
\* common angles: apexes and ends
Apex(p, q) == IF p.t = "H" THEN (IF q.t = "H" THEN (IF p.c = q.c THEN {<<p.c, p.c>>} ELSE {}) ELSE IF In(p.c, q.x) THEN {<<p.c, p.c>>} ELSE {})
              ELSE IF q.t = "H" THEN (IF In(q.c, p.x) THEN {<<q.c, q.c>>} ELSE {})
              ELSE Meet(p.x, q.x)
Ends(p, q) == IF p.t = "H" THEN (IF q.t = "H" THEN Meet(p.x, q.x) ELSE Less(Meet(p.x, q.x), p.c))
              ELSE IF q.t = "H" THEN Less(Meet(p.x, q.x), q.c)
              ELSE Meet(p.x, q.x)
NDist(p, q) == Choose2(Size(DistPts(p, q)))
NAng(p, q)  == IF p.t = "H" \/ q.t = "H" THEN (IF Apex(p, q) = {} THEN 0 ELSE Choose2(Size(Ends(p, q)))) ELSE 3 * Choose3(Size(Ends(p, q)))
InterB(p, q) == IF NDist(p, q) > 0 THEN [t |-> "R", c |-> 0, x |-> DistPts(p, q)]
                ELSE IF NAng(p, q) = 0 THEN Nothing
                ELSE IF p.t = "H" \/ q.t = "H" THEN [t |-> "H", c |-> IF p.t = "H" THEN p.c ELSE q.c, x |-> Ends(p, q)]
                ELSE [t |-> "B", c |-> 0, x |-> Ends(p, q)]

---------------------------------------------------------------------------
Ivs == {i \in Cut \X Cut : i[1] <= i[2]}
Shapes == {{i} : i \in Ivs} \cup {{i, j} : i, j \in {<<x, y>> \in Ivs : TRUE}}
Some(S) == IF Small \/ S = {} THEN S ELSE {RandomElement(S)}
\* centres lie outside of the other points
Mk(t, c, I) == [t |-> t, c |-> IF t = "H" THEN c ELSE 0, x |-> IF t = "H" THEN Less(I, c) ELSE I]
Pool == {I \in Shapes : Good(I)} \cup {{}}
Kinds == {"R", "H", "B"}
Init == n = 0 /\ a = Nothing /\ b = Nothing
Start == a = Nothing /\ a' \in {k \in {Mk(t, c, I) : t \in Some(Kinds), c \in Some(Cut), I \in Some(Pool)} : OkB(k)} /\ b' = Nothing /\ n' = n
Pair == a # Nothing /\ b = Nothing /\ b' \in {k \in {Mk(t, c, I) : t \in Some(Kinds), c \in Some(Cut), I \in Some(Pool)}
                                                         \cup (IF a.t = "H" THEN {Mk("H", a.c, I) : I \in Some(Pool)} ELSE {}) : OkB(k)} /\ a' = a /\ n' = n + 1
Follow == InterB(a, b) # Nothing /\ b # Nothing /\ ~Small /\ n < Steps /\ a' = InterB(a, b) /\ b' = Nothing /\ n' = n
Again == b # Nothing /\ ~Small /\ n < Steps /\ a' = Nothing /\ b' = Nothing /\ n' = n
Next == Start \/ Pair \/ Follow \/ Again
Spec == Init /\ [][Next]_vars

Same == (Small /\ b # Nothing) => LET p == Flat(a)  q == Flat(b) IN
    /\ CommonDist(p, q) = Two(Span(DistPts(a, b)))
    /\ CommonAng(p, q) = UNION {{<<x, T>> : T \in Two(Span(Ends(a, b)) \ {x})} : x \in Span(Apex(a, b))}
    /\ NDist(a, b) = Cardinality(CommonDist(p, q)) /\ NAng(a, b) = Cardinality(CommonAng(p, q))
    /\ Flat(InterB(a, b)) = Inter(p, q)
Emit == (~Small /\ b # Nothing) => PrintT("CL " \o ToJson([a |-> a, b |-> b, r |-> InterB(a, b), d |-> DistPts(a, b), p |-> Apex(a, b), e |-> Ends(a, b),
                                                    nd |-> NDist(a, b), na |-> NAng(a, b), n |-> <<NDist(a, a), NAng(a, a), NDist(a, a) + NAng(a, a)>>]))
=============================================================================
