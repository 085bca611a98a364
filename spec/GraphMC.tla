------------------------------- MODULE GraphMC -------------------------------
(* Exhaustive model of graphs behind handles.  Calls go to one handle; the   *)
(* deriving calls (copy, subgraph, reverse) overwrite another handle.        *)
(* Every state and every transition is printed as JSON for replay on the     *)
(* real class (VIEW leaves the last call out of the state).                  *)
EXTENDS GraphOps, TLC, Json
CONSTANTS Vertex, Value, Handle, EmitOn
VARIABLES g, act
vars == <<g, act>>

Calls == {<<"add_vertex", v>> : v \in Vertex}
    \cup {<<"remove_vertex", v>> : v \in Vertex}
    \cup {<<n, a, b, x>> : n \in {"add_edge", "add_bi_edge", "set", "set_bi_edge"},
                           a \in Vertex, b \in Vertex, x \in Value}
    \cup {<<n, a, b>> : n \in {"remove_edge", "remove_bi_edge"}, a \in Vertex, b \in Vertex}

Init == /\ g = [h \in Handle |-> EmptyGraph]
        /\ act = [op |-> <<"init">>, h |-> 0, to |-> 0, err |-> FALSE]

Call(h, op) == LET r == Apply(g[h], op)
               IN  /\ g' = [g EXCEPT ![h] = r.g]
                   /\ act' = [op |-> op, h |-> h, to |-> 0, err |-> r.err]

Derive(h, k, op, res) == /\ g' = [g EXCEPT ![k] = res]
                         /\ act' = [op |-> op, h |-> h, to |-> k, err |-> FALSE]

DoCopy(h, k)   == Derive(h, k, <<"copy">>, Copy(g[h]))
DoCtor(h, k)   == Derive(h, k, <<"ctor">>, Copy(g[h]))
DoRev(h, k)    == Derive(h, k, <<"reverse">>, Reverse(g[h]))
DoSub(h, k, S) == Derive(h, k, <<"subgraph", S>>, Subgraph(g[h], S))

Next == \/ \E h \in Handle, op \in Calls : Call(h, op)
        \/ \E h, k \in Handle : /\ h # k
                                /\ \/ DoCopy(h, k)
                                   \/ DoCtor(h, k)
                                   \/ DoRev(h, k)
                                   \/ \E S \in SUBSET Vertex : DoSub(h, k, S)
Spec == Init /\ [][Next]_vars
View == g

EmitState == EmitOn => PrintT("ST " \o ToJson([s |-> g,
                 obs |-> [h \in Handle |-> Obs(g[h])], reach |-> [h \in Handle |-> ReachObs(g[h])]]))
EmitStep  == EmitOn => PrintT("TR " \o ToJson([f |-> g, a |-> act', t |-> g']))

---------------------------------------------------------------------------
Laws == \A h \in Handle :
           /\ TypeOK(g[h])
           /\ Mirror(g[h])
           /\ ReverseInvolutive(g[h])
           /\ ReachDual(g[h])
           /\ Partition(g[h])
           /\ \A S \in SUBSET Vertex : SubgraphLaws(g[h], S)

Triples(h) == g[h].E
\* a removal removes exactly the named vertex (with its edges) or edge
RemovalExact == [][
   \A h \in Handle :
      (act'.h = h /\ ~act'.err) =>
        /\ (act'.op[1] = "remove_vertex") =>
             LET v == act'.op[2] IN
             /\ g'[h].V = g[h].V \ {v}
             /\ \A t \in g[h].E : (t \in g'[h].E) <=> (v # t[1] /\ v # t[2])
        /\ (act'.op[1] = "remove_edge") =>
             /\ g'[h].V = g[h].V
             /\ Pairs(g'[h]) = Pairs(g[h]) \ {<<act'.op[2], act'.op[3]>>}
   ]_vars
FailKeeps == [][act'.err => g' = g]_vars
\* no call on one graph shows in another
Independent == [][\A h \in Handle : (h # act'.h /\ h # act'.to) => g'[h] = g[h]]_vars
SourceKept  == [][act'.to # 0 => g'[act'.h] = g[act'.h]]_vars
=============================================================================
