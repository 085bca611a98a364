----------------------------- MODULE GraphTrace -----------------------------
(* Judges recorded histories of real Graph objects against GraphOps.         *)
(* trace.json: a list of histories, each a list of events                    *)
(*   [op |-> <<name, args..>>, h |-> handle, to |-> derived handle or 0,     *)
(*    err |-> call raised, hang |-> call did not return, res |-> result,     *)
(*    obs |-> <<handle, observation>> pairs, stale |-> names of earlier      *)
(*    results that this call altered]                                        *)
(* Every event is judged; the verdict is the set of failing clauses.         *)
EXTENDS GraphOps, TLC, Json, SequencesExt
CONSTANT NHandle
Traces == JsonDeserialize("trace.json")
Handle == 1..NHandle
VARIABLES h, l, g

Init == /\ h \in 1..Len(Traces)
        /\ l = 1
        /\ g = [k \in Handle |-> EmptyGraph]

Queries == {"path", "connected", "connected_in", "connected_out", "via_in", "via_out", "subsets", "get", "nbr", "look"}
Derives == {"copy", "ctor", "reverse", "subgraph"}

\* s lists exactly the members of S, each once
Exact(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S
\* s is a list of pairs <<v, list>> giving exactly F(v) for every vertex
Rows(s, V, F(_)) == /\ Len(s) = Cardinality(V)
                    /\ \A r \in ToSet(s) : r[1] \in V /\ Exact(r[2], F(r[1]))

ObsBad(G, o) ==
  LET c(n, ok) == IF ok THEN {} ELSE {n}
  IN  c("vertices", Exact(o.vs, G.V))
 \cup c("edges", Exact(o.es, Pairs(G)))
 \cup c("values", Exact(o.ev, G.E))
 \cup c("outgoing_vertices", Rows(o.out, G.V, LAMBDA v : Out(G, v)))
 \cup c("ingoing_vertices", Rows(o.in, G.V, LAMBDA v : In(G, v)))
 \cup c("adjacent_vertices", Rows(o.adj, G.V, LAMBDA v : Adj(G, v)))
 \cup c("outgoing_edges", Rows(o.oute, G.V, LAMBDA v : OutE(G, v)))
 \cup c("ingoing_edges", Rows(o.ine, G.V, LAMBDA v : InE(G, v)))
 \cup c("adjacent_edges", Rows(o.adje, G.V, LAMBDA v : AdjE(G, v)))
 \cup c("has_vertex", ToSet(o.hv) = G.V)
 \cup c("has_edge", ToSet(o.he) = Pairs(G))
 \cup c("has_bi_edge", ToSet(o.bi) = BiPairs(G))
 \cup c("has_any_edge", ToSet(o.any) = AnyPairs(G))

\* a single observer, asked on its own
LookOk(G, op, r) ==
  LET k == op[2]
      yes(b) == (r # <<>>) = b
  IN  CASE k = "vertices" -> Exact(r, G.V)
        [] k = "edges" -> Exact(r, Pairs(G))
        [] k = "out" -> Exact(r, Out(G, op[3]))
        [] k = "in" -> Exact(r, In(G, op[3]))
        [] k = "adj" -> Exact(r, Adj(G, op[3]))
        [] k = "oute" -> Exact(r, OutE(G, op[3]))
        [] k = "ine" -> Exact(r, InE(G, op[3]))
        [] k = "adje" -> Exact(r, AdjE(G, op[3]))
        [] k = "has_vertex" -> yes(op[3] \in G.V)
        [] k = "has_edge" -> yes(HasE(G, op[3], op[4]))
        [] k = "has_bi_edge" -> yes(<<op[3], op[4]>> \in BiPairs(G))
        [] k = "has_any_edge" -> yes(<<op[3], op[4]>> \in AnyPairs(G))

\* the verdict on a query result; queries need their vertex to exist
QueryBad(G, e) ==
  LET n == e.op[1]
      c(name, ok) == IF ok THEN {} ELSE {name}
      missing == CASE n = "subsets" -> FALSE
                   [] n = "get" -> ~HasE(G, e.op[2], e.op[3])
                   [] n = "look" -> e.op[2] \in {"out", "in", "adj", "oute", "ine", "adje"} /\ e.op[3] \notin G.V
                   [] OTHER -> e.op[2] \notin G.V
  IN IF missing THEN c("outcome", e.err)
     ELSE IF e.err THEN {"outcome"}
     ELSE CASE n = "path" -> c("path", PathOk(G, e.res, e.op[2], e.op[3]))
            [] n = "connected" -> c("connected", Exact(e.res, ConnAny(G, e.op[2])))
            [] n \in {"connected_in", "via_in"} -> c(n, Exact(e.res, ConnIn(G, e.op[2])))
            [] n \in {"connected_out", "via_out"} -> c(n, Exact(e.res, ConnOut(G, e.op[2])))
            [] n = "subsets" -> c("connected_subsets",
                   /\ Exact([i \in 1..Len(e.res) |-> ToSet(e.res[i])], Components(G))
                   /\ \A i \in 1..Len(e.res) : Len(e.res[i]) = Cardinality(ToSet(e.res[i])))
            [] n = "get" -> c("get", <<e.op[2], e.op[3], e.res>> \in G.E)
            [] n = "look" -> c(e.op[2], LookOk(G, e.op, e.res))
            [] n = "nbr" -> {}

Expected(e) ==
  IF e.op[1] \in Queries THEN [g |-> g, err |-> FALSE, q |-> QueryBad(g[e.h], e)]
  ELSE IF e.op[1] \in Derives THEN
     [g |-> [g EXCEPT ![e.to] = CASE e.op[1] = "reverse" -> Reverse(g[e.h])
                                  [] e.op[1] = "subgraph" -> Subgraph(g[e.h], ToSet(e.op[2]))
                                  [] OTHER -> Copy(g[e.h])],
      err |-> FALSE, q |-> {}]
  ELSE LET r == Apply(g[e.h], e.op)
       IN [g |-> [g EXCEPT ![e.h] = r.g], err |-> r.err, q |-> {}]

Judge(e, x) ==
       x.q
  \cup (IF e.op[1] \notin Queries /\ e.err # x.err THEN {"outcome"} ELSE {})
  \cup (IF e.hang THEN {"hang"} ELSE {})
  \cup {"stale_" \o e.stale[i] : i \in 1..Len(e.stale)}
  \cup UNION {LET b == ObsBad(x.g[e.obs[i][1]], e.obs[i][2])
              IN  IF e.obs[i][1] = (IF e.to = 0 THEN e.h ELSE e.to) THEN b
                  ELSE IF b = {} THEN {} ELSE b \cup {"other_graph_changed"} : i \in 1..Len(e.obs)}

Next == /\ l <= Len(Traces[h])
        /\ LET e == Traces[h][l]
               x == Expected(e)
               bad == Judge(e, x)
           IN  /\ g' = x.g
               /\ IF bad = {} THEN l' = l + 1
                  ELSE /\ PrintT("BAD " \o ToJson([h |-> h, l |-> l, clauses |-> bad]))
                       /\ l' = Len(Traces[h]) + 2
               /\ (l' = Len(Traces[h]) + 1) => PrintT("DONE " \o ToString(h))
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, l, g>>
View == <<h, l>>
\* model laws, on the states the real code visited
Laws == \A k \in Handle : TypeOK(g[k]) /\ Mirror(g[k])
=============================================================================
