-------------------------- MODULE ConstraintBlocks --------------------------
(* Constraint graphs of any size: points 1..N and one base point; link k is  *)
(* a constraint on k, k+1 and the base, wide constraint <<lo, hi>> is one on  *)
(* all points lo..hi.  Answers to the queries have closed forms (intervals). *)
(* With a small N they are compared with ConstraintOps after every call,     *)
(* with a large N they are replayed on the real class.                       *)
EXTENDS ConstraintOps, Intervals, TLC, Json
CONSTANTS N, Cut, MaxCalls, EmitOn, Small
VARIABLES vs,    \* points present, as intervals
          base,  \* is the base there
          ln,    \* links present, as intervals
          wd,    \* wide constraints present
          act, n, hist,
          cs     \* small N: the ConstraintOps state
vars == <<vs, base, ln, wd, act, n, hist, cs>>
BASE == N + 1
Ws == {w \in Cut \X Cut : w[1] <= w[2]}
WId(w) == N + 10 * w[1] + w[2]
CC == [c \in (1..(N - 1)) \cup {WId(w) : w \in Ws} |->
         IF c < N THEN <<c, c + 1, BASE>> ELSE LET w == CHOOSE w \in Ws : WId(w) = c IN [i \in 1..(w[2] - w[1] + 1) |-> w[1] + i - 1]]
Do(s, op) == IF Small THEN Apply(CC, s, op) ELSE s
RECURSIVE DoAll(_, _, _, _)
DoAll(s, name, lo, hi) == IF lo > hi \/ ~Small THEN s ELSE DoAll(Do(s, <<name, lo>>), name, lo + 1, hi)

Init == vs = {} /\ base = FALSE /\ ln = {} /\ wd = {} /\ act = <<"init">> /\ n = 0 /\ hist = <<>> /\ cs = Empty
To(v, b, l, w, op) == vs' = v /\ base' = b /\ ln' = l /\ wd' = w /\ act' = op /\ n' = n + 1
AddVars(lo, hi) == To(With(vs, lo, hi), base, ln, wd, <<"add_variables", lo, hi>>) /\ cs' = DoAll(cs, "add_variable", lo, hi)
Links(lo, hi)   == lo < hi /\ To(With(vs, lo, hi), TRUE, With(ln, lo, hi - 1), wd, <<"links", lo, hi>>) /\ cs' = DoAll(cs, "add_constraint", lo, hi - 1)
Unlink(lo, hi)  == lo < hi /\ To(vs, base, Outside(ln, lo, hi - 1), wd, <<"unlink", lo, hi>>) /\ cs' = DoAll(cs, "rem_constraint", lo, hi - 1)
Wide(w)   == To(With(vs, w[1], w[2]), base, ln, wd \cup {w}, <<"wide", w[1], w[2]>>) /\ cs' = Do(cs, <<"add_constraint", WId(w)>>)
UnWide(w) == To(vs, base, ln, wd \ {w}, <<"unwide", w[1], w[2]>>) /\ cs' = Do(cs, <<"rem_constraint", WId(w)>>)
RemVar(v) == To(Less(vs, v), base, IF In(v, vs) THEN Outside(ln, v - 1, v) ELSE ln, {w \in wd : ~In(v, {w})}, <<"rem_variable", v>>) /\ cs' = Do(cs, <<"rem_variable", v>>)
RemVars(lo, hi) == lo < hi /\ To(Outside(vs, lo, hi), base, Outside(ln, lo - 1, hi), {w \in wd : Meet({w}, {<<lo, hi>>}) = {}}, <<"rem_variables", lo, hi>>)
                   /\ cs' = DoAll(cs, "rem_variable", lo, hi)
RemBase == To(vs, FALSE, {}, wd, <<"rem_base">>) /\ cs' = Do(cs, <<"rem_variable", BASE>>)

\* answers: [l links, w wide constraints]
OnB(v) == IF v = BASE THEN [l |-> ln, w |-> {}] ELSE [l |-> Meet(ln, {<<v - 1, v>>}), w |-> {w \in wd : In(v, {w})}]
AnyB(lo, hi) == [l |-> Meet(ln, {<<lo - 1, hi>>}), w |-> {w \in wd : Meet({w}, {<<lo, hi>>}) # {}}]
RECURSIVE AllB(_)
AllB(q) == IF Len(q) = 1 THEN OnB(q[1]) ELSE LET a == AllB(Tail(q))  b == OnB(q[1]) IN [l |-> Meet(a.l, b.l), w |-> a.w \cap b.w]
AllSpan(lo, hi) == [l |-> IF hi = lo + 1 /\ In(lo, ln) THEN {<<lo, lo>>} ELSE IF hi = lo THEN OnB(lo).l ELSE {}, w |-> {w \in wd : w[1] <= lo /\ hi <= w[2]}]

Some(S) == IF Small \/ S = {} THEN S ELSE {RandomElement(S)}
Queries == {<<"on", <<v>>, OnB(v)>> : v \in Some(Cut) \cup {BASE}}
      \cup {<<"any", w, AnyB(w[1], w[2])>> : w \in Some(Ws)} \cup {<<"span", w, AllSpan(w[1], w[2])>> : w \in Some(Ws)}
      \cup {<<"all", q, AllB(q)>> : q \in {<<BASE, v>> : v \in Some(Cut)} \cup {<<v, x>> : v, x \in Some(Cut)} \cup {<<v, v + 1, BASE>> : v \in Some(Cut)}}
Next == /\ n < MaxCalls
        /\ \/ \E w \in Some(Ws) : AddVars(w[1], w[2])
           \/ \E w \in Some(Ws) : Links(w[1], w[2])
           \/ \E w \in Some(Ws) : Links(w[1], w[2])
           \/ \E w \in Some(Ws) : Unlink(w[1], w[2])
           \/ \E w \in Some(Ws) : Wide(w)
           \/ \E w \in Some(Ws) : Wide(w)
           \/ \E w \in Some(wd) : UnWide(w)
           \/ \E w \in Some(Ws) : UnWide(w)
           \/ \E v \in Some(Cut) : RemVar(v)
           \/ \E w \in Some(Ws) : RemVars(w[1], w[2])
           \/ RemBase
        /\ hist' = IF EmitOn THEN Append(hist, [a |-> act', vs |-> vs', base |-> base', ln |-> ln', wd |-> wd', q |-> Queries']) ELSE hist
Spec == Init /\ [][Next]_vars
View == <<vs, base, ln, wd, n, cs>>

Shape == Good(vs) /\ Good(ln)
IdsOf(x) == Span(x.l) \cup {WId(w) : w \in x.w}
Seq2(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Same == Small =>
    /\ cs.vars = Span(vs) \cup (IF base THEN {BASE} ELSE {})
    /\ cs.cons = Span(ln) \cup {WId(w) : w \in wd}
    /\ \A v \in 1..BASE : On(CC, cs, v) = IdsOf(OnB(v))
    /\ \A w \in Ws : /\ OnAny(CC, cs, Seq2(w[1], w[2])) = IdsOf(AnyB(w[1], w[2]))
                     /\ OnAll(CC, cs, Seq2(w[1], w[2])) = IdsOf(AllSpan(w[1], w[2]))
    /\ \A v, x \in 1..BASE : OnAll(CC, cs, <<v, x>>) = IdsOf(AllB(<<v, x>>))
    /\ \A v \in 1..(N - 1) : OnAll(CC, cs, <<v, v + 1, BASE>>) = IdsOf(AllB(<<v, v + 1, BASE>>))
EmitHist == (EmitOn /\ n = MaxCalls) => PrintT("HI " \o ToJson(hist))
=============================================================================
