------------------------------ MODULE GraphOps ------------------------------
(* The directed graph with edge values that solver/graph.py implements:      *)
(* states, the effect of every public call on them, and every query.         *)
(* A graph is [V |-> vertices, E |-> {<<from, to, value>>}] with at most one *)
(* triple per ordered pair.  Every mutating call is a total operator         *)
(* returning [g |-> new graph, err |-> does the call fail]; a failing call   *)
(* leaves the graph alone.  The exhaustive model (GraphMC) and the trace     *)
(* judge (GraphTrace) both step through these operators.                     *)
EXTENDS Integers, Sequences, FiniteSets

EmptyGraph == [V |-> {}, E |-> {}]

Ok(g)      == [g |-> g, err |-> FALSE]
Fail(g)    == [g |-> g, err |-> TRUE]

HasV(g, v)     == v \in g.V
HasE(g, a, b)  == \E t \in g.E : t[1] = a /\ t[2] = b
Val(g, a, b)   == (CHOOSE t \in g.E : t[1] = a /\ t[2] = b)[3]
Pairs(g)       == {<<t[1], t[2]>> : t \in g.E}
WithV(g, S)    == [g EXCEPT !.V = @ \cup S]

---------------------------------------------------------------------------
(* Mutating calls *)
AddVertex(g, v)  == Ok(WithV(g, {v}))

RemoveVertex(g, v) ==
    IF v \in g.V
    THEN Ok([V |-> g.V \ {v}, E |-> {t \in g.E : t[1] # v /\ t[2] # v}])
    ELSE Fail(g)

\* an existing edge keeps its value
PutNew(g, a, b, x) ==
    LET h == WithV(g, {a, b})
    IN  IF HasE(h, a, b) THEN h ELSE [h EXCEPT !.E = @ \cup {<<a, b, x>>}]
\* an existing edge gets the new value
Put(g, a, b, x) ==
    LET h == WithV(g, {a, b})
    IN  [h EXCEPT !.E = {t \in @ : ~(t[1] = a /\ t[2] = b)} \cup {<<a, b, x>>}]

AddEdge(g, a, b, x)   == Ok(PutNew(g, a, b, x))
AddBiEdge(g, a, b, x) == Ok(PutNew(PutNew(g, a, b, x), b, a, x))
SetEdge(g, a, b, x)   == Ok(Put(g, a, b, x))
SetBiEdge(g, a, b, x) == Ok(Put(Put(g, a, b, x), b, a, x))

Drop(g, a, b) == [g EXCEPT !.E = {t \in @ : ~(t[1] = a /\ t[2] = b)}]
RemoveEdge(g, a, b)   == IF HasE(g, a, b) THEN Ok(Drop(g, a, b)) ELSE Fail(g)
RemoveBiEdge(g, a, b) == IF HasE(g, a, b) /\ HasE(g, b, a)
                         THEN Ok(Drop(Drop(g, a, b), b, a)) ELSE Fail(g)

\* one call, by name: op = <<name, arguments...>>
Apply(g, op) ==
    CASE op[1] = "add_vertex"     -> AddVertex(g, op[2])
      [] op[1] = "remove_vertex"  -> RemoveVertex(g, op[2])
      [] op[1] = "add_edge"       -> AddEdge(g, op[2], op[3], op[4])
      [] op[1] = "add_bi_edge"    -> AddBiEdge(g, op[2], op[3], op[4])
      [] op[1] = "set"            -> SetEdge(g, op[2], op[3], op[4])
      [] op[1] = "set_bi_edge"    -> SetBiEdge(g, op[2], op[3], op[4])
      [] op[1] = "remove_edge"    -> RemoveEdge(g, op[2], op[3])
      [] op[1] = "remove_bi_edge" -> RemoveBiEdge(g, op[2], op[3])

---------------------------------------------------------------------------
(* Derived graphs *)
Copy(g)        == g
Subgraph(g, S) == [V |-> g.V \cap S, E |-> {t \in g.E : t[1] \in S /\ t[2] \in S}]
Reverse(g)     == [g EXCEPT !.E = {<<t[2], t[1], t[3]>> : t \in @}]

---------------------------------------------------------------------------
(* Queries *)
Out(g, v)  == {t[2] : t \in {u \in g.E : u[1] = v}}
In(g, v)   == {t[1] : t \in {u \in g.E : u[2] = v}}
Adj(g, v)  == Out(g, v) \cup In(g, v)
OutE(g, v) == {<<v, w>> : w \in Out(g, v)}
InE(g, v)  == {<<w, v>> : w \in In(g, v)}
AdjE(g, v) == OutE(g, v) \cup InE(g, v)
BiPairs(g)  == {p \in Pairs(g) : <<p[2], p[1]>> \in Pairs(g)}
AnyPairs(g) == Pairs(g) \cup {<<p[2], p[1]>> : p \in Pairs(g)}

RECURSIVE Close(_, _)
\* closure of a set of vertices under a set of pairs
Close(S, R) == LET N == S \cup {p[2] : p \in {q \in R : q[1] \in S}}
               IN  IF N = S THEN S ELSE Close(N, R)
Flip(R)     == {<<p[2], p[1]>> : p \in R}

\* vertices reachable from v by one or more edges
ReachOut(g, v)   == Close(Out(g, v), Pairs(g))
ReachIn(g, v)    == Close(In(g, v), Flip(Pairs(g)))
\* the connected queries leave out the vertex itself
ConnOut(g, v)    == ReachOut(g, v) \ {v}
ConnIn(g, v)     == ReachIn(g, v) \ {v}
ConnAny(g, v)    == Close({v}, AnyPairs(g)) \ {v}
Components(g)    == {Close({v}, AnyPairs(g)) : v \in g.V}

\* is the sequence p a legal answer to path(a, b)?
IsPath(g, p, a, b) ==
    /\ Len(p) >= 2
    /\ p[1] = a
    /\ p[Len(p)] = b
    /\ \A i \in 1..(Len(p) - 1) : HasE(g, p[i], p[i + 1])
PathOk(g, p, a, b) == IF b \in ReachOut(g, a) THEN IsPath(g, p, a, b) ELSE p = <<>>

---------------------------------------------------------------------------
(* Everything the observers of a graph report, as one record *)
Obs(g) ==
  [ vs   |-> g.V,
    es   |-> Pairs(g),
    ev   |-> g.E,
    out  |-> {<<v, Out(g, v)>> : v \in g.V},
    in   |-> {<<v, In(g, v)>> : v \in g.V},
    adj  |-> {<<v, Adj(g, v)>> : v \in g.V},
    oute |-> {<<v, OutE(g, v)>> : v \in g.V},
    ine  |-> {<<v, InE(g, v)>> : v \in g.V},
    adje |-> {<<v, AdjE(g, v)>> : v \in g.V},
    bi   |-> BiPairs(g),
    any  |-> AnyPairs(g) ]

ReachObs(g) ==
  [ co |-> {<<v, ConnOut(g, v)>> : v \in g.V},
    ci |-> {<<v, ConnIn(g, v)>> : v \in g.V},
    ca |-> {<<v, ConnAny(g, v)>> : v \in g.V},
    cs |-> Components(g),
    rp |-> {p \in g.V \X g.V : p[2] \in ReachOut(g, p[1])} ]

---------------------------------------------------------------------------
(* Laws of the model *)
TypeOK(g) == /\ \A t \in g.E : t[1] \in g.V /\ t[2] \in g.V
             /\ \A t, u \in g.E : (t[1] = u[1] /\ t[2] = u[2]) => t = u
Mirror(g) == \A a, b \in g.V : (b \in Out(g, a)) <=> (a \in In(g, b))
ReverseInvolutive(g) == /\ Reverse(Reverse(g)) = g
                        /\ \A v \in g.V : Out(Reverse(g), v) = In(g, v)
ReachDual(g) == \A a, b \in g.V : (b \in ReachOut(g, a)) <=> (a \in ReachIn(g, b))
Partition(g) == /\ UNION Components(g) = g.V
                /\ \A S, T \in Components(g) : S = T \/ S \cap T = {}
                /\ \A S \in Components(g) : \A a, b \in S : a # b => b \in ConnAny(g, a)
SubgraphLaws(g, S) == /\ Subgraph(g, g.V) = g
                      /\ Subgraph(Subgraph(g, S), S) = Subgraph(g, S)
                      /\ Reverse(Subgraph(g, S)) = Subgraph(Reverse(g), S)
=============================================================================
