------------------------------ MODULE MethodOps ------------------------------
(* Method graphs (solver/method.py): state, user calls, and the contract of  *)
(* propagation.  The operational algorithm that is to meet the contract is   *)
(* in MethodAlgo.                                                            *)
(*                                                                           *)
(* Values:  <<"n">> no value, <<"i", k>> a number, <<"s", S>> a set of       *)
(* alternatives of a multi-valued variable.                                  *)
(* A method definition is [kind, ins, outs, c] with ins/outs sequences of    *)
(* variables and c a constant; M maps method ids to definitions, and Multi   *)
(* is the set of multi-valued variables.                                     *)
(* A state is                                                                *)
(*  vars  variables present             val   variable -> value              *)
(*  met   methods present               pend  methods not yet executed       *)
(*  chg   variables whose change is not yet propagated                       *)
(*  base  values when the graph was last up to date                          *)
(*  ovr   determined variables set by the user since then                    *)
(*  bad   methods that currently raise an error when executed                *)
(*  man   determined variables that keep a value set by the user             *)
(*  soft  methods that may have been executed by a propagation that then     *)
(*        stopped with an error                                              *)
(*  may   methods whose explicit execution failed: they may run again        *)
EXTENDS Integers, Sequences, FiniteSets

None    == <<"n">>
Num(k)  == <<"i", k>>
Alts(S) == <<"s", S>>
IsNone(x) == x[1] = "n"

Rng(s) == {s[i] : i \in 1..Len(s)}
Ins(M, m)  == Rng(M[m].ins)
Outs(M, m) == Rng(M[m].outs)

Empty == [vars |-> {}, val |-> <<>>, met |-> {}, pend |-> {}, chg |-> {}, base |-> <<>>, ovr |-> {}, bad |-> {}, soft |-> {}, man |-> {}, may |-> {}]

Dom(f) == DOMAIN f
Restrict(f, S) == [x \in (Dom(f) \cap S) |-> f[x]]
Extend(f, S, d) == [x \in (Dom(f) \cup S) |-> IF x \in Dom(f) THEN f[x] ELSE d]

---------------------------------------------------------------------------
(* What the methods compute.  f maps input variables to plain numbers. *)
RECURSIVE Weighted(_, _, _)
\* sum over inputs k of (k + j) * value
Weighted(ins, f, j) == LET RECURSIVE S(_)
                           S(k) == IF k = 0 THEN 0 ELSE (k + j) * f[ins[k]] + S(k - 1)
                       IN S(Len(ins))
Modulus == 101

\* value of output number j of a single-valued method (inputs all present)
Scalar(d, f, j) ==
    CASE d.kind = "add"    -> Num(f[d.ins[1]] + f[d.ins[2]])
      [] d.kind = "sub"    -> Num(f[d.ins[1]] - f[d.ins[2]])
      [] d.kind = "assign" -> Num(f[d.ins[1]])
      [] d.kind = "set"    -> Num(d.c)
      [] d.kind = "lin"    -> Num((Weighted(d.ins, f, j) + d.c) % Modulus)
      [] d.kind = "mod"    -> Num((Weighted(d.ins, f, j) + d.c) % 2)
      [] d.kind \in {"part", "nul"} ->
             \* partially defined: leaves out some outputs (or yields None for them)
             IF (f[d.ins[1]] + j + d.c) % 2 = 0 THEN Num((Weighted(d.ins, f, j) + d.c) % Modulus) ELSE None

\* alternatives produced by a multi-valued method for one combination f
Produce(d, f) ==
    CASE d.kind = "sp"   -> {f[d.ins[1]] + f[d.ins[2]], f[d.ins[1]] * f[d.ins[2]]}
      [] d.kind = "wsum" -> {(Weighted(d.ins, f, 1) + d.c) % Modulus}
      [] d.kind = "fork" -> {(Weighted(d.ins, f, 1) + d.c) % Modulus, (Weighted(d.ins, f, 3) + d.c) % Modulus}
      [] d.kind = "some" -> IF (f[d.ins[1]] + d.c) % 2 = 0 THEN {(Weighted(d.ins, f, 2) + d.c) % Modulus} ELSE {}

MultiKinds == {"sp", "wsum", "fork", "some"}

\* all combinations: one alternative per multi-valued input variable
Choices(M, m, val) ==
    LET I == Ins(M, m)
        alt(x) == IF val[x][1] = "s" THEN val[x][2] ELSE {val[x][2]}
        all == UNION {alt(x) : x \in I}
    IN  {f \in [I -> all] : \A x \in I : f[x] \in alt(x)}

\* the value the method yields for variable v on the values val
Yields(M, m, val, v) ==
    LET d == M[m] IN
    IF \E x \in Ins(M, m) : IsNone(val[x]) THEN None
    ELSE IF d.kind \in MultiKinds
         THEN Alts(UNION {Produce(d, f) : f \in Choices(M, m, val)})
         ELSE LET j == CHOOSE i \in 1..Len(d.outs) : d.outs[i] = v
              IN  Scalar(d, [x \in Ins(M, m) |-> val[x][2]], j)

---------------------------------------------------------------------------
(* Structure *)
Producers(M, met, v) == {m \in met : v \in Outs(M, m)}
Determined(M, s, v)  == Producers(M, s.met, v) # {}

RECURSIVE DownSet(_, _, _)
\* S and all variables downstream of S
DownSet(M, met, S) ==
    LET N == S \cup UNION {Outs(M, m) : m \in {k \in met : Ins(M, k) \cap S # {}}}
    IN  IF N = S THEN S ELSE DownSet(M, met, N)

OutsOf(M, ms) == UNION {Outs(M, m) : m \in ms}

WouldDouble(M, s, m) == \E v \in Outs(M, m) : Producers(M, s.met, v) # {}
WouldCycle(M, s, m)  == DownSet(M, s.met \cup {m}, Outs(M, m)) \cap Ins(M, m) # {}

Acyclic(M, s) == \A m \in s.met : DownSet(M, s.met, Outs(M, m)) \cap Ins(M, m) = {}
SingleDetermined(M, s) == \A v \in s.vars : Cardinality(Producers(M, s.met, v)) <= 1
WellFormed(M, s) == /\ \A m \in s.met : Ins(M, m) \cup Outs(M, m) \subseteq s.vars
                    /\ s.pend \subseteq s.met /\ s.chg \subseteq s.vars
                    /\ Dom(s.val) = s.vars

---------------------------------------------------------------------------
(* The contract of propagation: which values `new` may it leave?             *)
\* variables that may get a new value, and methods that may be executed
MayVars(M, s) == DownSet(M, s.met, s.chg \cup OutsOf(M, s.pend \cup s.may))
MayRun(M, s)  == s.pend \cup s.may \cup {m \in s.met : Ins(M, m) \cap MayVars(M, s) # {}}
\* methods that have to be executed, given the values `new` propagation ends with
MustRun(M, s, new, m) ==
    \/ m \in s.pend
    \/ \E x \in Ins(M, m) : x \notin Dom(s.base) \/ new[x] # s.base[x]

\* Without an override the outcome has to be consistent; an explicitly set value may stay
\* until something upstream changes.
ValueOk(M, s, new, v) ==
    LET P == Producers(M, s.met, v) IN
    IF P = {} THEN new[v] = s.val[v]
    ELSE LET m == CHOOSE k \in P : TRUE IN
         IF m \notin MayRun(M, s) THEN new[v] = s.val[v]
         ELSE \/ new[v] = Yields(M, m, new, v)
              \/ new[v] = s.val[v] /\ (v \in s.ovr \/ (v \in s.man /\ ~MustRun(M, s, new, m)))

SettleBad(M, s, new) == IF Dom(new) # s.vars THEN s.vars \cup Dom(new)
                        ELSE {v \in s.vars : ~ValueOk(M, s, new, v)}
SettleOk(M, s, new) == SettleBad(M, s, new) = {}
Overrides(M, s, new) == {v \in s.vars : \E m \in Producers(M, s.met, v) : new[v] # Yields(M, m, new, v)}
Settled(M, s, new) == [s EXCEPT !.val = new, !.base = new, !.pend = {}, !.chg = {}, !.ovr = {}, !.soft = {}, !.may = {},
                                !.man = Overrides(M, s, new)]

\* propagation that stopped with an error: what may have changed
MayFail(M, s) == MayRun(M, s) \cap s.bad # {}
AbortBad(M, s, new) == IF Dom(new) # s.vars THEN s.vars \cup Dom(new)
                       ELSE {v \in s.vars : new[v] # s.val[v] /\ ~(v \in MayVars(M, s) /\ Determined(M, s, v))}
Aborted(M, s, new) == [s EXCEPT !.val = new, !.chg = @ \cup MayVars(M, s), !.soft = @ \cup MayRun(M, s),
                                !.man = {v \in @ : new[v] = s.val[v]}]
\* methods whose execution a completed propagation cannot have avoided
Certain(M, s, new) == {m \in s.met \ s.soft : /\ \A x \in Ins(M, m) : ~IsNone(new[x])
                                     /\ \/ m \in s.pend
                                        \/ \E x \in Ins(M, m) : x \in Dom(s.base) /\ new[x] # s.base[x]}
\* an error raised by a method may not be swallowed
Swallowed(M, s, new) == Certain(M, s, new) \cap s.bad # {}

(* The outcome when no override is pending: evaluate what may run. *)
RECURSIVE Eval(_, _, _)
Eval(M, s, v) ==
    LET P == Producers(M, s.met, v) IN
    IF P = {} THEN s.val[v]
    ELSE LET m == CHOOSE k \in P : TRUE IN
         IF m \notin MayRun(M, s) THEN s.val[v]
         ELSE Yields(M, m, [x \in Ins(M, m) |-> Eval(M, s, x)], v)
EvalAll(M, s) == [v \in s.vars |-> Eval(M, s, v)]

---------------------------------------------------------------------------
(* User calls, without the propagation some of them end with.                *)
(* Each returns [s |-> state, err |-> set of legal error kinds ("" = none)]   *)
Res(s, e) == [s |-> s, err |-> e]

AddVariable(s, v, x) ==
    IF v \in s.vars THEN Res(s, {""})
    ELSE Res([s EXCEPT !.vars = @ \cup {v}, !.val = Extend(@, {v}, x)], {""})

SetVar(M, s, v, x) ==
    IF v \notin s.vars THEN Res(s, {"other"})
    ELSE Res([s EXCEPT !.val[v] = x, !.chg = @ \cup {v},
                       !.ovr = IF Determined(M, s, v) THEN @ \cup {v} ELSE @], {""})

Declare(M, s, m) == LET N == Ins(M, m) \cup Outs(M, m)
                    IN  [s EXCEPT !.vars = @ \cup N, !.val = Extend(@, N, None)]
AddMethod(M, s, m) ==
    IF m \in s.met THEN Res(s, {""})
    ELSE IF WouldDouble(M, s, m) \/ WouldCycle(M, s, m)
         THEN Res(Declare(M, s, m), (IF WouldDouble(M, s, m) THEN {"determine"} ELSE {})
                               \cup (IF WouldCycle(M, s, m) THEN {"cycle"} ELSE {}))
         ELSE Res([Declare(M, s, m) EXCEPT !.met = @ \cup {m}, !.pend = @ \cup {m},
                                           !.ovr = @ \ Outs(M, m), !.man = @ \ Outs(M, m)], {""})

RemMethod(M, s, m) ==
    IF m \notin s.met THEN Res(s, {"other"})
    ELSE Res([s EXCEPT !.met = @ \ {m}, !.pend = @ \ {m}, !.soft = @ \ {m}, !.may = @ \ {m},
                       !.man = @ \ Outs(M, m), !.ovr = @ \ Outs(M, m)], {""})

RemVariable(M, s, v) ==
    IF v \notin s.vars THEN Res(s, {"other"})
    ELSE LET gone == {m \in s.met : v \in Ins(M, m) \cup Outs(M, m)}
             left == s.vars \ {v}
         IN  Res([s EXCEPT !.vars = left, !.val = Restrict(@, left), !.base = Restrict(@, left),
                           !.met = @ \ gone, !.pend = @ \ gone, !.soft = @ \ gone, !.may = @ \ gone, !.chg = @ \ {v},
                           !.ovr = (@ \ {v}) \ OutsOf(M, gone), !.man = (@ \ {v}) \ OutsOf(M, gone)], {""})

\* explicit execution of a method (propagates); a failed one need not be repeated
Execute(s, m) == IF m \in s.met THEN Res([s EXCEPT !.pend = @ \cup {m}, !.soft = @ \ {m}], {""}) ELSE Res(s, {"other"})
ExecuteFailed(M, s, m, t) == \* s before the call, t = Aborted state
    IF m \in s.pend THEN t ELSE [t EXCEPT !.pend = @ \ {m}, !.may = @ \cup {m}]

\* removes every variable, so every method except those on no variable at all
Clear(M, s) == LET rest == {m \in s.met : Ins(M, m) \cup Outs(M, m) = {}}
               IN  Res([Empty EXCEPT !.bad = s.bad, !.met = rest, !.pend = s.pend \cap rest, !.soft = s.soft \cap rest, !.may = s.may \cap rest], {""})

---------------------------------------------------------------------------
Consistent(M, s) == \A v \in s.vars :
    \A m \in Producers(M, s.met, v) : s.val[v] = Yields(M, m, s.val, v)
=============================================================================
