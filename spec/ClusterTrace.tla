---------------------------- MODULE ClusterTrace ----------------------------
(* Judges recorded chains of real cluster operations (clusters of any size). *)
(* trace.json: list of chains; an event has the two clusters as the caller   *)
(* made or obtained them (a, b), the intersection both ways round, the common*)
(* distances, angles and constraints both ways round, the counts of a, and   *)
(* both operands as they were afterwards.                                    *)
EXTENDS ClusterOps, TLC, Json, SequencesExt
Traces == JsonDeserialize("trace.json")
VARIABLES h, l
Cl(r) == [t |-> r.t, c |-> r.c, x |-> ToSet(r.x)]
D(q) == {{q[i][1], q[i][2]} : i \in 1..Len(q)}
A(q) == {<<q[i][2], {q[i][1], q[i][3]}>> : i \in 1..Len(q)}
\* each listed once
OnceD(q, S) == Len(q) = Cardinality(S) /\ D(q) = S
OnceA(q, S) == Len(q) = Cardinality(S) /\ A(q) = S
Init == h \in 1..Len(Traces) /\ l = 1
Judge(e) ==
    LET a == Cl(e.a)  b == Cl(e.b)  i == Inter(a, b)
        c(n, ok) == IF ok THEN {} ELSE {n}
    IN   c("outcome", e.err = "")
    \cup c("intersection", Cl(e.ab) = i)
    \cup c("intersection_swapped", Cl(e.ba) = i)
    \cup c("common_distances", OnceD(e.cd, CommonDist(a, b)) /\ OnceD(e.cd2, CommonDist(a, b)))
    \cup c("common_angles", OnceA(e.ca, CommonAng(a, b)) /\ OnceA(e.ca2, CommonAng(a, b)))
    \cup c("common_constraints", OnceD(e.ccd, CommonDist(a, b)) /\ OnceA(e.cca, CommonAng(a, b)))
    \cup c("counts", e.n = <<Cardinality(Dist(a)), Cardinality(Ang(a)), Cardinality(Dist(a)) + Cardinality(Ang(a))>>)
    \cup c("operand_changed", Cl(e.a2) = a /\ Cl(e.b2) = b)
Next == /\ l <= Len(Traces[h])
        /\ LET bad == Judge(Traces[h][l])
           IN  /\ IF bad = {} THEN l' = l + 1
                  ELSE /\ PrintT("BAD " \o ToJson([h |-> h, l |-> l, clauses |-> bad]))
                       /\ l' = Len(Traces[h]) + 2
               /\ (l' = Len(Traces[h]) + 1) => PrintT("DONE " \o ToString(h))
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, l>>
=============================================================================
