------------------------------ MODULE ConfigCase ----------------------------
(* Everything the specification says about two configurations a, b, a        *)
(* selection s and a homogeneous matrix t.                                   *)
EXTENDS ConfigOps, SequencesExt
BOnly(A, B) == Vars(B) \ Vars(A)
Motion(A, B, r) == [i |-> r[1], j |-> r[2], c |-> TurnC(A, B, r), w |-> [q \in 1..Cardinality(BOnly(A, B)) |->
                       LET k == SetToSortSeq(BOnly(A, B), <)[q] o == Offset(A, B, r, k) IN <<k, o[1], o[2]>>]]
Pairs(B) == {<<i, j, Len2(Sub(At(B, i), At(B, j)))>> : i, j \in Vars(B)}
Triples(B) == {<<i, j, k, Area2(At(B, i), At(B, j), At(B, k))>> : i, j, k \in Vars(B)}
Expect(x) == LET A == x.a B == x.b IN
    [eq |-> Equal(A, B), vars |-> Vars(A) = Vars(B), under |-> Under(A, B), bonly |-> BOnly(A, B), shared |-> Shared(A, B),
     fits |-> SameShape(A, B, Shared(A, B)),
     refs |-> {Motion(A, B, r) : r \in Refs(A, B)},
     pairs |-> IF Refs(A, B) = {} THEN Pairs(B) ELSE {}, triples |-> IF Refs(A, B) = {} THEN Triples(B) ELSE {},
     sel |-> IF \A i \in 1..Len(x.s) : x.s[i] \in Vars(A) THEN {x.s[i] : i \in 1..Len(x.s)} ELSE {-1},
     tr |-> [i \in 1..Len(A.m) |-> LET h == Transformed(x.t, <<A.m[i][2], A.m[i][3]>>) IN <<A.m[i][1], h.x, h.y, h.w>>]]
Theorems(x) == WellFormed(x.a) /\ WellFormed(x.b) /\ EqTheorems(x.a, x.b) /\ MergeTheorems(x.a, x.b)
=============================================================================
