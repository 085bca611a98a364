----------------------------- MODULE ConfigTrace ----------------------------
(* Recorded histories of operations on configurations that share points:     *)
(* every result must be what the operation asks for, and every configuration *)
(* alive must stay what it was.  An observed configuration is [m, f, ok]: ok *)
(* says that all coordinates are integers (to within rounding).              *)
EXTENDS ConfigOps, TLC, Json, SequencesExt
Traces == JsonDeserialize("trace.json")
VARIABLES h, l, live, bad
vars == <<h, l, live, bad>>
Ev == Traces[h][l]

Init == h \in 1..Len(Traces) /\ l = 1 /\ live = <<>> /\ bad = {}

Kept(A, R, V) == \A n \in V : n \in Vars(R) /\ At(R, n) = At(A, n)
New(e) == e.snap[Len(e.snap)]
Clauses(e) ==
    LET n == Len(live)
        A == live[e.i] B == live[e.j] R == New(e)
        makes == e.o \in {"new", "copy", "add", "select", "transform", "merge"} /\ e.err = ""
    IN  (IF \A k \in 1..n : k <= Len(e.snap) /\ Points(e.snap[k]) = Points(live[k]) /\ WellFormed(e.snap[k]) THEN {} ELSE {"point_changed"})
   \cup (IF \A k \in 1..n : k <= Len(e.snap) /\ e.snap[k].f = live[k].f THEN {} ELSE {"flag_changed"})
   \cup (IF e.src THEN {} ELSE {"mapping_changed"})
   \cup (IF Len(e.snap) = (IF makes THEN n + 1 ELSE n) THEN {} ELSE {"outcome"})
   \cup (IF e.o = "select" /\ ~({e.v[k] : k \in 1..Len(e.v)} \subseteq Vars(A)) THEN IF e.err # "" THEN {} ELSE {"refusal"}
         ELSE IF e.err # "" THEN {"outcome"}
         ELSE IF e.o = "alien" THEN (IF e.r THEN {"equality"} ELSE {})
         ELSE IF e.o = "eq" THEN (IF e.r = Equal(A, B) THEN {} ELSE {"equality"}) \cup (IF Vars(A) = Vars(B) => e.hash THEN {} ELSE {"hash"})
         ELSE IF makes /\ Len(e.snap) = n + 1 THEN
            CASE e.o = "new" -> (IF Points(R) = {<<e.v[k][1], <<e.v[k][2], e.v[k][3]>>>> : k \in 1..Len(e.v)} THEN {} ELSE {"new"}) \cup (IF R.f THEN {"flag_new"} ELSE {})
              [] e.o = "copy" -> (IF Points(R) = Points(A) THEN {} ELSE {"copy"}) \cup (IF R.f = A.f THEN {} ELSE {"flag_copy"})
              [] e.o = "add" -> IF Points(R) = Points(A) \cup {p \in Points(B) : p[1] \notin Vars(A)} THEN {} ELSE {"add"}
              [] e.o = "select" -> IF Points(R) = {p \in Points(A) : p[1] \in {e.v[k] : k \in 1..Len(e.v)}} THEN {} ELSE {"select"}
              [] e.o = "transform" -> IF Points(R) = {<<p[1], LET q == Transformed(e.t, p[2]) IN <<q.x \div q.w, q.y \div q.w>>>> : p \in Points(A)} THEN {} ELSE {"transform"}
              [] e.o = "merge" -> (IF Vars(R) = Vars(A) \cup Vars(B) /\ WellFormed(R) THEN {} ELSE {"merge_vars"})
                              \cup (IF Kept(A, R, Vars(A)) THEN {} ELSE {"merge_first"})
                              \cup (IF R.f = Under(A, B) /\ e.r = Under(A, B) THEN {} ELSE {"flag"})
                              \cup (IF Vars(R) = Vars(A) \cup Vars(B) /\ R.ok => MergePlaces(A, B, R, Vars(B) \ Vars(A)) THEN {} ELSE {"merge_motion"})
         ELSE {})
Step == /\ l <= Len(Traces[h]) /\ bad = {}
        /\ LET c == Clauses(Ev) IN bad' = c /\ l' = l + 1 /\ live' = IF c = {} THEN Ev.snap ELSE live
        /\ UNCHANGED h
Spec == Init /\ [][Step]_vars
Report == IF bad # {} THEN PrintT("BAD " \o ToJson([h |-> h, l |-> l - 1, clauses |-> SetToSeq(bad)]))
          ELSE IF l > Len(Traces[h]) THEN PrintT("DONE " \o ToString(h)) ELSE TRUE
=============================================================================
