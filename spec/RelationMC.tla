----------------------------- MODULE RelationMC -----------------------------
(* All relations over N points (sequences, repetitions included), their      *)
(* identity, and all constructor calls over short sequences.                 *)
EXTENDS ClusterOps, TLC, Json
CONSTANTS N, MaxLen
Point == 1..N
Rel == (Point \X Point) \cup (Point \X Point \X Point)
SeqsTo(n) == UNION {[1..k -> Point] : k \in 0..n}
VARIABLE x
Init == \/ x \in [kind : {"eq"}, p : Rel]
        \/ x \in [kind : {"R", "B"}, p : SeqsTo(MaxLen)]
        \/ x \in [kind : {"H"}, c : Point, p : SeqsTo(MaxLen)]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Made == CASE x.kind = "R" -> MakeR(x.p) [] x.kind = "B" -> MakeB(x.p) [] x.kind = "H" -> MakeH(x.c, x.p)
Emit == IF x.kind = "eq" THEN PrintT("EQ " \o ToJson([p |-> x.p, same |-> {q \in Rel : SameRelation(x.p, q)}]))
        ELSE PrintT("MK " \o ToJson([kind |-> x.kind, c |-> IF x.kind = "H" THEN x.c ELSE 0, p |-> x.p, ok |-> Valid(Made), k |-> Made]))
\* identity of relations is an equivalence that never mixes distances and angles
Equivalence == x.kind = "eq" =>
    /\ SameRelation(x.p, x.p)
    /\ \A q \in Rel : SameRelation(x.p, q) => SameRelation(q, x.p) /\ Len(q) = Len(x.p)
                                           /\ \A r \in Rel : SameRelation(q, r) => SameRelation(x.p, r)
=============================================================================
