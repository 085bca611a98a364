----------------------------- MODULE GraphBlocks -----------------------------
(* Graphs of any size, described by blocks: disjoint intervals of vertices    *)
(* joined as a chain, a cycle, a star, a flail (a star with a handle at its   *)
(* last tip), or not at all.  Every call and every   *)
(* query has a closed form in terms of the blocks.  With a small N the closed *)
(* forms are checked against GraphOps in every reachable state; with a large  *)
(* N the same module says what a graph of thousands of vertices must answer,  *)
(* and its behaviours are replayed on the real class.                         *)
EXTENDS GraphOps, TLC, Json
CONSTANTS N,          \* vertices are 1..N
          Cut,        \* where calls may strike
          Probe,      \* where queries are asked
          MaxCalls, EmitOn
VARIABLES bl, act, n, hist
vars == <<bl, act, n, hist>>

Kinds == {"chain", "rchain", "cycle", "rcycle", "star", "instar", "flail", "rflail", "dust"}
Turned == [chain |-> "rchain", rchain |-> "chain", cycle |-> "rcycle", rcycle |-> "cycle", star |-> "instar", instar |-> "star", flail |-> "rflail", rflail |-> "flail", dust |-> "dust"]
B(k, lo, hi) == IF lo > hi THEN {} ELSE {[k |-> k, lo |-> lo, hi |-> hi]}
Span(b) == b.lo .. b.hi
Has(v) == \E b \in bl : v >= b.lo /\ v <= b.hi
Of(v) == CHOOSE b \in bl : v >= b.lo /\ v <= b.hi

---------------------------------------------------------------------------
(* What the blocks stand for *)
BlockE(b) == CASE b.k = "chain"  -> {<<x, x + 1>> : x \in b.lo .. (b.hi - 1)}
               [] b.k = "rchain" -> {<<x + 1, x>> : x \in b.lo .. (b.hi - 1)}
               [] b.k = "cycle"  -> {<<x, x + 1>> : x \in b.lo .. (b.hi - 1)} \cup {<<b.hi, b.lo>>}
               [] b.k = "rcycle" -> {<<x + 1, x>> : x \in b.lo .. (b.hi - 1)} \cup {<<b.lo, b.hi>>}
               [] b.k = "star"   -> {<<b.lo, x>> : x \in (b.lo + 1) .. b.hi}
               [] b.k = "instar" -> {<<x, b.lo>> : x \in (b.lo + 1) .. b.hi}
               [] b.k = "flail"  -> {<<b.lo, x>> : x \in (b.lo + 1) .. (b.hi - 1)} \cup {<<b.hi - 1, b.hi>>}
               [] b.k = "rflail" -> {<<x, b.lo>> : x \in (b.lo + 1) .. (b.hi - 1)} \cup {<<b.hi, b.hi - 1>>}
               [] b.k = "dust"   -> {}
Abs(S) == [V |-> UNION {Span(b) : b \in S}, E |-> {<<p[1], p[2], 1>> : p \in UNION {BlockE(b) : b \in S}}]

---------------------------------------------------------------------------
(* Closed forms of the queries: sets of intervals <<lo, hi>> *)
I(lo, hi) == IF lo > hi THEN {} ELSE {<<lo, hi>>}
Rest(b, v) == I(b.lo, v - 1) \cup I(v + 1, b.hi)
\* a flail seen from its hub or its tips: downwards and upwards
Down(b, v) == IF v = b.lo THEN I(v + 1, b.hi) ELSE IF v = b.hi - 1 THEN I(b.hi, b.hi) ELSE {}
Up(b, v)   == IF v = b.lo THEN {} ELSE I(b.lo, b.lo) \cup (IF v = b.hi THEN I(v - 1, v - 1) ELSE {})
NDown(b, v) == IF v = b.lo THEN I(v + 1, b.hi - 1) ELSE Down(b, v)
NUp(b, v)   == IF v = b.hi THEN I(v - 1, v - 1) ELSE Up(b, v)
XAny(v) == LET b == Of(v) IN IF b.k = "dust" THEN {} ELSE Rest(b, v)
XOut(v) == LET b == Of(v) IN
           CASE b.k = "chain" -> I(v + 1, b.hi)
             [] b.k = "rchain" -> I(b.lo, v - 1)
             [] b.k \in {"cycle", "rcycle"} -> Rest(b, v)
             [] b.k = "star" -> IF v = b.lo THEN I(v + 1, b.hi) ELSE {}
             [] b.k = "instar" -> IF v = b.lo THEN {} ELSE I(b.lo, b.lo)
             [] b.k = "flail" -> Down(b, v) [] b.k = "rflail" -> Up(b, v)
             [] OTHER -> {}
XIn(v)  == LET b == Of(v) IN
           CASE b.k = "chain" -> I(b.lo, v - 1)
             [] b.k = "rchain" -> I(v + 1, b.hi)
             [] b.k \in {"cycle", "rcycle"} -> Rest(b, v)
             [] b.k = "star" -> IF v = b.lo THEN {} ELSE I(b.lo, b.lo)
             [] b.k = "instar" -> IF v = b.lo THEN I(v + 1, b.hi) ELSE {}
             [] b.k = "flail" -> Up(b, v) [] b.k = "rflail" -> Down(b, v)
             [] OTHER -> {}
\* neighbours; a cycle of one is a loop, a cycle of two a pair of edges
NOut(v) == LET b == Of(v) IN
           CASE b.k = "chain" -> I(v + 1, IF v < b.hi THEN v + 1 ELSE v)
             [] b.k = "rchain" -> I(v - 1, IF v > b.lo THEN v - 1 ELSE v - 2)
             [] b.k = "cycle" -> LET w == IF v = b.hi THEN b.lo ELSE v + 1 IN I(w, w)
             [] b.k = "rcycle" -> LET w == IF v = b.lo THEN b.hi ELSE v - 1 IN I(w, w)
             [] b.k = "flail" -> NDown(b, v) [] b.k = "rflail" -> NUp(b, v)
             [] OTHER -> XOut(v)
NIn(v)  == LET b == Of(v) IN
           CASE b.k = "rchain" -> I(v + 1, IF v < b.hi THEN v + 1 ELSE v)
             [] b.k = "chain" -> I(v - 1, IF v > b.lo THEN v - 1 ELSE v - 2)
             [] b.k = "rcycle" -> LET w == IF v = b.hi THEN b.lo ELSE v + 1 IN I(w, w)
             [] b.k = "cycle" -> LET w == IF v = b.lo THEN b.hi ELSE v - 1 IN I(w, w)
             [] b.k = "flail" -> NUp(b, v) [] b.k = "rflail" -> NDown(b, v)
             [] OTHER -> XIn(v)
In1(S, x) == \E p \in S : p[1] <= x /\ x <= p[2]
XPath(a, b) == In1(XOut(a), b) \/ (a = b /\ Of(a).k \in {"cycle", "rcycle"})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
XEdges == Sum({<<b, CASE b.k = "dust" -> 0 [] b.k \in {"cycle", "rcycle"} -> b.hi - b.lo + 1 [] OTHER -> b.hi - b.lo>> : b \in bl})
XVerts == {<<b.lo, b.hi>> : b \in bl}
XComp  == {<<b.lo, b.hi>> : b \in {c \in bl : c.k # "dust"}}     \* the others are on their own

---------------------------------------------------------------------------
(* Large N: what every probe has to answer *)
Answers == [ verts |-> XVerts, edges |-> XEdges, comp |-> XComp, loose |-> {<<b.lo, b.hi>> : b \in {c \in bl : c.k = "dust"}},
             at |-> {[v |-> v, any |-> XAny(v), out |-> XOut(v), in |-> XIn(v), nout |-> NOut(v), nin |-> NIn(v),
                      paths |-> {<<w, XPath(v, w)>> : w \in {x \in Probe : Has(x)}}] : v \in {x \in Probe : Has(x)}},
             gone |-> {v \in Probe : ~Has(v)} ]
---------------------------------------------------------------------------
(* Calls *)
Init == bl = {} /\ n = 0 /\ act = [op |-> <<"init">>, err |-> FALSE] /\ hist = <<>>
To(S, op) == bl' = S /\ act' = [op |-> op, err |-> FALSE] /\ n' = n + 1
Refuse(op) == bl' = bl /\ act' = [op |-> op, err |-> TRUE] /\ n' = n + 1

\* a whole block at once (the driver makes the single calls in some order)
Build(k, lo, hi) == /\ lo <= hi
                    /\ k \in {"star", "instar"} => lo < hi
                    /\ k \in {"flail", "rflail"} => lo + 1 < hi
                    /\ \A b \in bl : b.hi < lo \/ b.lo > hi
                    /\ To(bl \cup B(k, lo, hi), <<"build", k, lo, hi>>)
Line(k) == IF k = "flail" THEN "chain" ELSE "rchain"
Fan(k)  == IF k = "flail" THEN "star" ELSE "instar"
RemoveV(v) ==
    LET op == <<"remove_vertex", v>> IN
    IF ~Has(v) THEN Refuse(op)
    ELSE LET b == Of(v)  R == bl \ {b} IN
         CASE b.k \in {"chain", "rchain", "dust"} -> To(R \cup B(b.k, b.lo, v - 1) \cup B(b.k, v + 1, b.hi), op)
           [] b.k \in {"cycle", "rcycle"} /\ v \in {b.lo, b.hi} ->
                 To(R \cup B(IF b.k = "cycle" THEN "chain" ELSE "rchain", IF v = b.lo THEN v + 1 ELSE b.lo, IF v = b.lo THEN b.hi ELSE v - 1), op)
           [] b.k \in {"star", "instar"} /\ v = b.lo -> To(R \cup B("dust", v + 1, b.hi), op)
           [] b.k \in {"star", "instar"} /\ v = b.hi -> To(R \cup B(IF v - 1 = b.lo THEN "dust" ELSE b.k, b.lo, v - 1), op)
           [] b.k \in {"flail", "rflail"} /\ v = b.lo -> To(R \cup B("dust", v + 1, b.hi - 2) \cup B(Line(b.k), b.hi - 1, b.hi), op)
           [] b.k \in {"flail", "rflail"} /\ v = b.hi -> To(R \cup B(Fan(b.k), b.lo, v - 1), op)
           [] OTHER -> FALSE
RemoveE(x, y) ==
    LET op == <<"remove_edge", x, y>> IN
    IF ~(Has(x) /\ In1(NOut(x), y)) THEN Refuse(op)
    ELSE LET b == Of(x)  R == bl \ {b} IN
         CASE b.k = "chain" -> To(R \cup B("chain", b.lo, x) \cup B("chain", y, b.hi), op)
           [] b.k = "rchain" -> To(R \cup B("rchain", b.lo, y) \cup B("rchain", x, b.hi), op)
           [] b.k = "cycle" /\ x = b.hi -> To(R \cup B("chain", b.lo, b.hi), op)
           [] b.k = "rcycle" /\ y = b.hi -> To(R \cup B("rchain", b.lo, b.hi), op)
           [] b.k \in {"star", "instar"} /\ b.hi \in {x, y} -> To(R \cup B(IF b.hi - 1 = b.lo THEN "dust" ELSE b.k, b.lo, b.hi - 1) \cup B("dust", b.hi, b.hi), op)
           [] b.k \in {"flail", "rflail"} /\ {x, y} = {b.hi - 1, b.hi} -> To(R \cup B(Fan(b.k), b.lo, b.hi - 1) \cup B("dust", b.hi, b.hi), op)
           [] OTHER -> FALSE
AddE(x, y) ==
    /\ Has(x) /\ Has(y)
    /\ LET op == <<"add_edge", x, y>>  b == Of(x)  c == Of(y) IN
       \/ b = c /\ b.k = "chain" /\ x = b.hi /\ y = b.lo /\ To((bl \ {b}) \cup B("cycle", b.lo, b.hi), op)
       \/ b = c /\ b.k = "rchain" /\ x = b.lo /\ y = b.hi /\ x # y /\ To((bl \ {b}) \cup B("rcycle", b.lo, b.hi), op)
       \/ b # c /\ b.k = "chain" /\ c.k = "chain" /\ x = b.hi /\ y = c.lo /\ y = x + 1 /\ To((bl \ {b, c}) \cup B("chain", b.lo, c.hi), op)
       \/ In1(NOut(x), y) /\ To(bl, op)
Reversed == To({[b EXCEPT !.k = Turned[b.k]] : b \in bl}, <<"reverse">>)
Copied(op) == To(bl, op)
Part(b, lo, hi) ==
    LET l == IF lo > b.lo THEN lo ELSE b.lo
        r == IF hi < b.hi THEN hi ELSE b.hi
        k == CASE l = b.lo /\ r = b.hi -> b.k
               [] b.k = "cycle" -> "chain" [] b.k = "rcycle" -> "rchain"
               [] b.k \in {"star", "instar"} /\ (l > b.lo \/ r = l) -> "dust"
               [] OTHER -> b.k
    IN IF b.k \notin {"flail", "rflail"} \/ (l = b.lo /\ r = b.hi) THEN B(k, l, r)
       ELSE IF l = b.lo THEN B(IF r = l THEN "dust" ELSE Fan(b.k), l, r)
       ELSE IF r = b.hi /\ l < r THEN B("dust", l, r - 2) \cup B(Line(b.k), r - 1, r)
       ELSE B("dust", l, r)
Sub(lo, hi) == To(UNION {Part(b, lo, hi) : b \in bl}, <<"subgraph", lo, hi>>)

Call == \/ \E k \in Kinds, lo, hi \in Cut : Build(k, lo, hi)
        \/ \E v \in Cut : RemoveV(v)
        \/ \E x, y \in Cut : (y - x) \in {1, -1} /\ RemoveE(x, y)
        \/ \E b \in bl : RemoveE(b.hi, b.lo) \/ RemoveE(b.lo, b.hi) \/ AddE(b.hi, b.lo) \/ AddE(b.lo, b.hi)
        \/ \E b, c \in bl : AddE(b.hi, c.lo)
        \/ Reversed \/ \E op \in {<<"copy">>, <<"ctor">>} : Copied(op)
        \/ \E lo, hi \in Cut : lo < hi /\ Sub(lo, hi)
Next == /\ n < MaxCalls
        /\ Call
        /\ hist' = IF EmitOn THEN Append(hist, [a |-> act', x |-> Answers']) ELSE hist
Spec == Init /\ [][Next]_vars
View == <<bl, n>>

---------------------------------------------------------------------------
(* Small N: the closed forms are right, and so are the calls *)
Un(S) == UNION {p[1] .. p[2] : p \in S}
Refines ==
    LET G == Abs(bl) IN
    /\ \A b \in bl : b.k \in {"star", "instar"} => b.lo < b.hi
    /\ \A b \in bl : b.k \in {"flail", "rflail"} => b.lo + 1 < b.hi
    /\ \A b, c \in bl : b # c => Span(b) \cap Span(c) = {}
    /\ Cardinality(G.E) = XEdges /\ G.V = Un(XVerts)
    /\ Components(G) = {p[1] .. p[2] : p \in XComp} \cup {{v} : v \in UNION {Span(b) : b \in {c \in bl : c.k = "dust"}}}
    /\ \A v \in G.V : /\ ConnAny(G, v) = Un(XAny(v)) /\ ConnOut(G, v) = Un(XOut(v)) /\ ConnIn(G, v) = Un(XIn(v))
                      /\ Out(G, v) = Un(NOut(v)) /\ In(G, v) = Un(NIn(v))
                      /\ \A w \in G.V : XPath(v, w) <=> (w \in ReachOut(G, v))
StepRefines == [][
    LET o == act'.op  G == Abs(bl)  H == Abs(bl') IN
    CASE o[1] = "build" -> H.V = G.V \cup (o[3] .. o[4]) /\ H.E = G.E \cup {<<p[1], p[2], 1>> : p \in BlockE([k |-> o[2], lo |-> o[3], hi |-> o[4]])}
      [] o[1] \in {"copy", "ctor"} -> H = Copy(G)
      [] o[1] = "reverse" -> H = Reverse(G)
      [] o[1] = "subgraph" -> H = Subgraph(G, o[2] .. o[3])
      [] OTHER -> LET r == Apply(G, IF o[1] = "add_edge" THEN o \o <<1>> ELSE o) IN H = r.g /\ act'.err = r.err
    ]_vars

EmitHist == (EmitOn /\ n = MaxCalls) => PrintT("HI " \o ToJson(hist))
=============================================================================
