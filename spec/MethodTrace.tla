---------------------------- MODULE MethodTrace ----------------------------
(* Judges recorded histories of real MethodGraph objects against MethodOps.  *)
(* trace.json: a list of histories [defs |-> <<[kind, ins, outs, c]..>>,      *)
(* events |-> <<..>>].  An event is                                          *)
(*   [op |-> <<name, args..>>, prop |-> with propagation,                    *)
(*    err |-> "" | "determine" | "cycle" | "Boom" | "other", hang |-> BOOL,   *)
(*    vars, mets |-> lists of the members, vals |-> <<variable, value>> list, *)
(*    ran |-> methods whose execute was entered,                              *)
(*    seen |-> 2: everything observed, 1: only values, asked by name, 0: nothing *)
(*    res |-> result of direct executions, same |-> given map unaltered]      *)
(* Values are <<"n">>, <<"i", k>>, <<"s", <<k..>>>>.                          *)
EXTENDS MethodOps, TLC, Json, SequencesExt
Traces == JsonDeserialize("trace.json")
VARIABLES h, l, s

Val(x) == IF x[1] = "s" THEN <<"s", ToSet(x[2])>> ELSE x
ValMap(ps) == [v \in {ps[i][1] : i \in 1..Len(ps)} |->
                  Val(ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = v][2])]
Exact(q, S) == Len(q) = Cardinality(S) /\ ToSet(q) = S

Init == h \in 1..Len(Traces) /\ l = 1 /\ s = Empty

---------------------------------------------------------------------------
\* Direct execution of a method on a map: the outputs it has to yield
Builtin == {"add", "sub", "assign", "set"}
Direct(M, m, f) ==
    LET d == M[m]
        lacks == {x \in Ins(M, m) : x \notin DOMAIN f}
        nones == {x \in Ins(M, m) \ lacks : IsNone(f[x])}
    IN  CASE d.kind = "set" -> [v \in Outs(M, m) |-> Num(d.c)]
          [] d.kind = "assign" -> IF lacks # {} THEN <<>> ELSE [v \in Outs(M, m) |-> f[d.ins[1]]]
          [] d.kind \in {"add", "sub"} ->
                IF lacks \cup nones # {} THEN <<>> ELSE [v \in Outs(M, m) |-> Yields(M, m, f, v)]
          [] OTHER -> [v \in Outs(M, m) |-> Yields(M, m, f, v)]

\* Results of a method that tells what it was given: one object for each of its variables
Tags(d, g) == LET t == <<"t", [i \in 1..Len(d.ins) |-> g[d.ins[i]]]>> IN
    CASE d.c = 0 -> {t}  [] d.c = 1 -> {t, <<"u", t[2]>>}  [] OTHER -> IF g[d.ins[1]] % 2 = 1 THEN {t} ELSE {}
\* Execution on opaque objects, known by number: a value is <<"o", k>>, <<"n">> or, of a multi-valued variable,
\* <<"m", <<k..>>>>; a result names the operation and its operands in order.  Object 0 is the one a set method was made with.
TermMap(ps) == [v \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = v][2]]
Term(M, m, f) ==
    LET d == M[m]
        blank == {x \in Ins(M, m) : x \notin DOMAIN f \/ f[x][1] = "n"}
        out(t) == [v \in Outs(M, m) |-> t]
        objs(x) == IF f[x][1] = "m" THEN ToSet(f[x][2]) ELSE {f[x][2]}
        a == d.ins[1] b == d.ins[2]
    IN  CASE d.kind = "set" -> out(<<"o", 0>>)
          [] d.kind = "assign" -> IF a \notin DOMAIN f THEN <<>> ELSE out(f[a])
          [] d.kind = "add" -> IF blank # {} THEN <<>> ELSE out(<<"+", f[a][2], f[b][2]>>)
          [] d.kind = "sub" -> IF blank # {} THEN <<>> ELSE out(<<"-", f[a][2], f[b][2]>>)
          [] d.kind = "sp"  -> out(<<"{}", UNION {{<<"+", p[1], p[2]>>, <<"*", p[1], p[2]>>} : p \in {q \in objs(a) \X objs(b) : a = b => q[1] = q[2]}}>>)
          [] d.kind = "tag" -> out(<<"{}", UNION {Tags(d, g) : g \in {g \in [Ins(M, m) -> 1..6] : \A x \in Ins(M, m) : g[x] \in objs(x)}}>>)
TermRes(x) == IF x[1] = "{}" THEN <<"{}", ToSet(x[2])>> ELSE x
ResMap(ps) == [v \in {ps[i][1] : i \in 1..Len(ps)} |-> TermRes(ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = v][2])]

---------------------------------------------------------------------------
\* The call as the specification sees it, before any propagation
Pre(M, e) ==
    LET n == e.op[1] IN
    CASE n = "add_variable" -> AddVariable(s, e.op[2], Val(e.op[3]))
      [] n = "set"          -> SetVar(M, s, e.op[2], Val(e.op[3]))
      [] n = "add_method"   -> AddMethod(M, s, e.op[2])
      [] n = "rem_method"   -> RemMethod(M, s, e.op[2])
      [] n = "rem_variable" -> RemVariable(M, s, e.op[2])
      [] n = "clear"        -> Clear(M, s)
      [] n = "execute"      -> Execute(s, e.op[2])
      [] n = "get"          -> IF e.op[2] \in s.vars THEN Res(s, {""}) ELSE Res(s, {"other"})
      [] n = "fail_on"      -> Res([s EXCEPT !.bad = @ \cup {e.op[2]}], {""})
      [] n = "fail_off"     -> Res([s EXCEPT !.bad = @ \ {e.op[2]}], {""})
      [] OTHER              -> Res(s, {""})   \* propagate, queries, direct executions
\* does this call end with propagation?
Propagates(e, r) == /\ r.err = {""}
                    /\ \/ e.op[1] \in {"propagate", "execute"}
                       \/ e.op[1] = "set" /\ e.prop
                       \/ e.op[1] = "add_method" /\ e.prop /\ e.op[2] \notin s.met

DirectBad(M, e) ==
    LET c(n, ok) == IF ok THEN {} ELSE {n} IN
    CASE e.op[1] = "direct" ->
              LET f == ValMap(e.op[3]) IN
              c("outcome", e.err = "") \cup c("direct", e.err # "" \/ ValMap(e.res) = Direct(M, e.op[2], f))
              \cup c("input_map", e.same)
      [] e.op[1] = "term" ->
              c("outcome", e.err = "") \cup c("direct", e.err # "" \/ ResMap(e.res) = Term(M, e.op[2], TermMap(e.op[3])))
              \cup c("input_map", e.same)
      [] e.op[1] = "new_multi" ->    \* flags of the outputs: is it a multi-valued variable?
              c("multi_outputs", (e.err = "") = (e.op[2] = <<TRUE>>))
      [] OTHER -> {}

\* [s |-> next state, bad |-> failing clauses]
Judge(M, e) ==
    LET r == Pre(M, e)
        new == ValMap(e.vals)
        c(n, ok) == IF ok THEN {} ELSE {n}
        lists(t) == c("variables", e.seen < 2 \/ Exact(e.vars, t.vars)) \cup c("methods", e.seen < 2 \/ Exact(e.mets, t.met))
                    \cup c("get", e.op[1] # "get" \/ e.err # "" \/ (Len(e.res) = 1 /\ Val(e.res[1][2]) = s.val[e.op[2]]))
                    \cup c("ran", ToSet(e.ran) \subseteq (s.met \cup t.met) /\ (e.op[1] \in {"propagate", "set", "execute"} => ToSet(e.ran) \subseteq t.met))
                    \cup c("hang", ~e.hang)
    IN  IF e.op[1] \in {"direct", "term", "new_multi"} THEN [s |-> s, bad |-> DirectBad(M, e)]
        ELSE IF ~Propagates(e, r)
        THEN [s |-> r.s, bad |-> c("outcome", e.err \in r.err) \cup lists(r.s) \cup c("unpropagated", e.seen = 0 \/ new = r.s.val)]
        ELSE IF e.err = ""
        THEN LET b == SettleBad(M, r.s, new)
             IN [s |-> IF b # {} THEN r.s ELSE Settled(M, r.s, new),
                 bad |-> lists(r.s) \cup c("settled", b = {})
                         \cup (IF b = {} THEN c("swallowed", ~Swallowed(M, r.s, new)) ELSE {})]
        ELSE LET b == AbortBad(M, r.s, new)
             IN [s |-> IF b # {} THEN r.s ELSE IF e.op[1] = "execute" THEN ExecuteFailed(M, s, e.op[2], Aborted(M, r.s, new))
                       ELSE Aborted(M, r.s, new),
                 bad |-> lists(r.s) \cup c("outcome", e.err = "Boom" /\ MayFail(M, r.s)) \cup c("aborted", b = {})]

Next == /\ l <= Len(Traces[h].events)
        /\ LET e == Traces[h].events[l]
               j == Judge(Traces[h].defs, e)
           IN  /\ s' = j.s
               /\ IF j.bad = {} THEN l' = l + 1
                  ELSE /\ PrintT("BAD " \o ToJson([h |-> h, l |-> l, clauses |-> j.bad]))
                       /\ l' = Len(Traces[h].events) + 2
               /\ (l' = Len(Traces[h].events) + 1) => PrintT("DONE " \o ToString(h))
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, l, s>>
View == <<h, l>>
Laws == LET M == Traces[h].defs IN WellFormed(M, s) /\ Acyclic(M, s) /\ SingleDetermined(M, s)
=============================================================================
