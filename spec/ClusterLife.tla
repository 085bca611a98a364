---------------------------- MODULE ClusterLife ----------------------------
(* A program that works with clusters: it collects points, makes clusters of *)
(* them, intersects clusters, flags them, changes the points of some, asks   *)
(* what two have in common, and goes on changing its own collections.  Every *)
(* step changes the one object it is about and no other; in particular an    *)
(* intersection is a cluster of its own, and a cluster keeps the points it   *)
(* was made of, whatever becomes of the collection they came in.             *)
EXTENDS ClusterOps, TLC, Json
CONSTANTS N, Steps, MaxCl, MaxSrc, Draw
VARIABLES cl, src, hist
vars == <<cl, src, hist>>
Point == 1..N
Pick(S) == IF Draw /\ S # {} THEN {RandomElement(S)} ELSE S
New(k) == [k |-> k, o |-> FALSE]
Log(a) == hist' = IF Draw THEN Append(hist, [act |-> a, cl |-> cl']) ELSE hist
Room == Len(cl) < MaxCl
Put(k) == cl' = IF Room THEN Append(cl, New(k)) ELSE [cl EXCEPT ![1] = New(k)]

Collect == /\ Len(src) < MaxSrc
           /\ \E S \in Pick(SUBSET Point) : src' = Append(src, S) /\ cl' = cl /\ Log([op |-> "collect", x |-> S])
Alter == \E s \in Pick(DOMAIN src) : \E p \in Pick(Point) :
           /\ src' = [src EXCEPT ![s] = IF p \in @ THEN @ \ {p} ELSE @ \cup {p}]
           /\ cl' = cl /\ Log([op |-> "alter", s |-> s, p |-> p])
Make == \E s \in Pick(DOMAIN src) : \E t \in Pick({"R", "H", "B"}) : \E c \in Pick(Point) :
           LET k == [t |-> t, c |-> IF t = "H" THEN c ELSE 0, x |-> IF t = "H" THEN src[s] \ {c} ELSE src[s]]
           IN  /\ (Valid(k) /\ (Draw \/ Room)) \/ (~Valid(k) /\ Draw)
               /\ IF Valid(k) THEN Put(k) ELSE cl' = cl
               /\ src' = src /\ Log([op |-> "make", s |-> s, t |-> t, c |-> k.c, ok |-> Valid(k)])
Meet2 == \E i \in Pick(DOMAIN cl) : \E j \in Pick(DOMAIN cl) :
           LET r == Inter(cl[i].k, cl[j].k)
           IN  /\ r = None \/ Draw \/ Room
               /\ IF r = None THEN cl' = cl ELSE Put(r)
               /\ src' = src /\ Log([op |-> "inter", i |-> i, j |-> j, ok |-> r # None])
Flag == \E i \in Pick(DOMAIN cl) : cl' = [cl EXCEPT ![i].o = ~@] /\ src' = src /\ Log([op |-> "flag", i |-> i])
Grow == \E i \in Pick({j \in DOMAIN cl : cl[j].k.t # "H"}) : \E p \in Pick(Point) :
           LET k == [cl[i].k EXCEPT !.x = IF p \in @ THEN @ \ {p} ELSE @ \cup {p}]
           IN  /\ Valid(k)
               /\ cl' = [cl EXCEPT ![i].k = k] /\ src' = src /\ Log([op |-> "grow", i |-> i, p |-> p])
Ask == \E i \in Pick(DOMAIN cl) : \E j \in Pick(DOMAIN cl) : LET a == cl[i].k  b == cl[j].k IN
           /\ cl' = cl /\ src' = src
           /\ Log([op |-> "ask", i |-> i, j |-> j, d |-> CommonDist(a, b), a |-> CommonAng(a, b),
                   n |-> <<Cardinality(Dist(a)), Cardinality(Ang(a)), Cardinality(Dist(a)) + Cardinality(Ang(a))>>])
Init == cl = <<>> /\ src = <<>> /\ hist = <<>>
Step == /\ Len(hist) < Steps
        /\ Collect \/ Alter \/ Make \/ Meet2 \/ Meet2 \/ Flag \/ Grow \/ Ask \/ Ask
\* a finished program is printed (once), and another begins
Over == /\ Len(hist) = Steps /\ Draw
        /\ PrintT("LF " \o ToJson(hist))
        /\ hist' = <<>> /\ cl' = <<>> /\ src' = <<>>
Next == Step \/ Over
Spec == Init /\ [][Next]_vars

AllValid == \A i \in DOMAIN cl : Valid(cl[i].k) /\ Points(cl[i].k) \subseteq Point
\* a step changes one cluster at most, or adds one, or changes a collection
Owned == [][/\ \A i \in DOMAIN cl : cl'[i] = cl[i] \/ (Len(cl') = Len(cl) /\ src' = src /\ \A j \in DOMAIN cl \ {i} : cl'[j] = cl[j])
            /\ (src' # src => cl' = cl)]_vars
\* a new cluster that is the meeting of two fixes no more than either
Weaker == [][Len(cl') = Len(cl) + 1 =>
               LET k == cl'[Len(cl')] IN ~k.o /\ (k.k \in Clusters(Point))]_vars
=============================================================================
