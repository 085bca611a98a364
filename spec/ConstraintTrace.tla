--------------------------- MODULE ConstraintTrace ---------------------------
(* Judges recorded histories of real ConstraintGraph objects.                *)
(* trace.json: [cons |-> <<variables of constraint 1, ..>>, events |-> ..];   *)
(* an event is [op, err, hang, vars, cons |-> members, on |-> <<v, list>>..,  *)
(* q |-> <<"any"|"all", selection, list>>.., stale |-> altered results,       *)
(* seen |-> were vars and cons asked for].                                    *)
EXTENDS ConstraintOps, TLC, Json, SequencesExt
Traces == JsonDeserialize("trace.json")
VARIABLES h, l, s
Init == h \in 1..Len(Traces) /\ l = 1 /\ s = Empty
Exact(q, S) == Len(q) = Cardinality(S) /\ ToSet(q) = S
Judge(C, e, t) ==
    LET c(n, ok) == IF ok THEN {} ELSE {n} IN
         c("outcome", e.err = "") \cup c("hang", ~e.hang)
    \cup c("variables", ~e.seen \/ Exact(e.vars, t.vars)) \cup c("constraints", ~e.seen \/ Exact(e.cons, t.cons))
    \cup c("on", \A i \in 1..Len(e.on) : Exact(e.on[i][2], On(C, t, e.on[i][1])))
    \cup UNION {LET x == e.q[i] IN c(x[1], Exact(x[3], IF x[1] = "any" THEN OnAny(C, t, x[2]) ELSE OnAll(C, t, x[2]))) : i \in 1..Len(e.q)}
    \cup {"stale_" \o e.stale[i] : i \in 1..Len(e.stale)}
Next == /\ l <= Len(Traces[h].events)
        /\ LET e == Traces[h].events[l]
               C == Traces[h].cons
               t == Apply(C, s, e.op)
               bad == Judge(C, e, t)
           IN  /\ s' = t
               /\ IF bad = {} THEN l' = l + 1
                  ELSE /\ PrintT("BAD " \o ToJson([h |-> h, l |-> l, clauses |-> bad]))
                       /\ l' = Len(Traces[h].events) + 2
               /\ (l' = Len(Traces[h].events) + 1) => PrintT("DONE " \o ToString(h))
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, l, s>>
View == <<h, l>>
Laws == WellFormed(Traces[h].cons, s)
=============================================================================
