------------------------------ MODULE ConfigOps -----------------------------
(* Configurations (solver/geometric/configuration.py): named points of the   *)
(* plane.  A configuration is [m, f]: m a sequence of <<name, x, y>> (one    *)
(* entry per name, in any order) and f the underconstrained flag.  Integer   *)
(* coordinates; rotations by exact complex products (PlaneOps).              *)
EXTENDS PlaneOps

Vars(A)   == {A.m[i][1] : i \in 1..Len(A.m)}
At(A, n)  == LET i == CHOOSE i \in 1..Len(A.m) : A.m[i][1] = n IN <<A.m[i][2], A.m[i][3]>>
Points(A) == {<<n, At(A, n)>> : n \in Vars(A)}
WellFormed(A) == Cardinality(Vars(A)) = Len(A.m)

\* a rotation plus translation carries the points V of A onto those of B:
\* distances and orientations agree
SameShape(A, B, V) ==
    /\ \A i, j \in V : Len2(Sub(At(A, i), At(A, j))) = Len2(Sub(At(B, i), At(B, j)))
    /\ \A i, j, k \in V : Area2(At(A, i), At(A, j), At(A, k)) = Area2(At(B, i), At(B, j), At(B, k))
Equal(A, B) == Vars(A) = Vars(B) /\ SameShape(A, B, Vars(A))

Shared(A, B) == Vars(A) \cap Vars(B)
Apart(A, S)  == \E i, j \in S : At(A, i) # At(A, j)
\* pairs of shared names that fix the motion of B onto A
Refs(A, B) == {r \in Shared(A, B) \X Shared(A, B) : At(A, r[1]) # At(A, r[2]) /\ At(B, r[1]) # At(B, r[2])}
\* the turn is by Turn2/sqrt(TurnC)
Turn2(A, B, r) == Turn(Sub(At(B, r[2]), At(B, r[1])), Sub(At(A, r[2]), At(A, r[1])))
TurnC(A, B, r) == Len2(Sub(At(B, r[2]), At(B, r[1]))) * Len2(Sub(At(A, r[2]), At(A, r[1])))
\* point k of B goes to At(A, r[1]) + Offset/sqrt(TurnC)
Offset(A, B, r, k) == Times(Sub(At(B, k), At(B, r[1])), Turn2(A, B, r))
MoreThanOne(A) == Cardinality(Vars(A)) > 1
Under(A, B) ==
    LET S == Shared(A, B)
    IN  \/ A.f \/ B.f
        \/ S = {}
        \/ Cardinality(S) = 1 /\ MoreThanOne(A) /\ MoreThanOne(B)
        \/ Cardinality(S) > 1 /\ (~Apart(A, S) \/ ~Apart(B, S))

---------------------------------------------------------------------------
\* what the specification itself must satisfy
EqTheorems(A, B) == LET eq == Equal(A, B) IN
    /\ eq = Equal(B, A) /\ Equal(A, A)
    \* it does not matter on which pair of points the two are aligned
    /\ Vars(A) = Vars(B) => \A r \in Refs(A, B) :
          eq <=> \A k \in Vars(A) :
              /\ Len2(Sub(At(A, r[2]), At(A, r[1]))) = Len2(Sub(At(B, r[2]), At(B, r[1])))
              /\ Offset(A, B, r, k) = Scale(Len2(Sub(At(A, r[2]), At(A, r[1]))), Sub(At(A, k), At(A, r[1])))
    \* without such a pair, one is equal to the other iff all points coincide in both
    /\ (Vars(A) = Vars(B) /\ Refs(A, B) = {}) => eq = (~Apart(A, Vars(A)) /\ ~Apart(B, Vars(B)))
MergeTheorems(A, B) == LET S == Shared(A, B) same == SameShape(A, B, S) refs == Refs(A, B) IN
    /\ \A r \in refs :
        /\ Len2(Turn2(A, B, r)) = TurnC(A, B, r)                                    \* a rotation: no scaling
        /\ Cross(Offset(A, B, r, r[2]), Sub(At(A, r[2]), At(A, r[1]))) = 0          \* in the right direction
        /\ Dot(Offset(A, B, r, r[2]), Sub(At(A, r[2]), At(A, r[1]))) > 0
        /\ same =>
             /\ \A k \in S : Offset(A, B, r, k) = Scale(Len2(Sub(At(A, r[2]), At(A, r[1]))), Sub(At(A, k), At(A, r[1])))
             /\ \A q \in refs : Cross(Turn2(A, B, r), Turn2(A, B, q)) = 0 /\ Dot(Turn2(A, B, r), Turn2(A, B, q)) > 0
    \* if no pair is apart in both operands, all shared points coincide in one of them
    /\ (refs = {} /\ Cardinality(S) > 1) => Under(A, B)
    /\ (~A.f /\ ~B.f /\ refs # {}) => ~Under(A, B)
    /\ Under(A, B) = Under(B, A)

---------------------------------------------------------------------------
\* Observed results with integer coordinates
Placed(A, B, r, R, k) ==        \* k is where reference r puts it
    LET o == Sub(At(R, k), At(A, r[1])) w == Offset(A, B, r, k)
    IN  Len2(o) = Len2(Sub(At(B, k), At(B, r[1]))) /\ Cross(o, w) = 0 /\ Dot(o, w) >= 0
\* B with the points of V taken from A
Override(A, B, V) == [m |-> [i \in 1..Len(B.m) |-> LET n == B.m[i][1] IN IF n \in V THEN <<n, At(A, n)[1], At(A, n)[2]>> ELSE B.m[i]], f |-> FALSE]
MergePlaces(A, B, R, K) ==
    IF Refs(A, B) # {} THEN \E r \in Refs(A, B) : \A k \in K : Placed(A, B, r, R, k)
    ELSE IF Shared(A, B) = {} THEN SameShape(B, R, K)
    ELSE \E s \in Shared(A, B) : SameShape(B, R, K \cup {s})
Transformed(t, p) == [x |-> t[1][1] * p[1] + t[1][2] * p[2] + t[1][3], y |-> t[2][1] * p[1] + t[2][2] * p[2] + t[2][3], w |-> t[3][1] * p[1] + t[3][2] * p[2] + t[3][3]]
=============================================================================
