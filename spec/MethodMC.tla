------------------------------ MODULE MethodMC ------------------------------
(* Exhaustive model of a MethodGraph under user calls, with the propagation  *)
(* of a call as one step.  Every state and transition is emitted and walked  *)
(* on the real class.  No overrides and no faults here, so the outcome of    *)
(* every call is determined; MethodAlgo and MethodTrace cover those.         *)
EXTENDS MethodOps, TLC, Json
CONSTANTS Var, Meth, Values, Settable, Deferred, EmitOn
MId == DOMAIN Meth
VARIABLES s, act
vars == <<s, act>>

Init == s = Empty /\ act = [op |-> <<"init">>, prop |-> FALSE, err |-> {""}]

Run(op, prop, r) ==
    LET go == prop /\ r.err = {""}
    IN /\ s' = IF go THEN Settled(Meth, r.s, EvalAll(Meth, r.s)) ELSE r.s
       /\ act' = [op |-> op, prop |-> prop, err |-> r.err]

Props == IF Deferred THEN BOOLEAN ELSE {TRUE}
Next ==
    \/ \E v \in Var, x \in Values : (v \in s.vars \/ v \in Settable \/ IsNone(x)) /\ Run(<<"add_variable", v, x>>, FALSE, AddVariable(s, v, x))
    \/ \E v \in Settable, x \in Values, p \in Props : ~Determined(Meth, s, v) /\ Run(<<"set", v, x>>, p, SetVar(Meth, s, v, x))
    \/ \E m \in MId, p \in Props : Run(<<"add_method", m>>, p /\ m \notin s.met, AddMethod(Meth, s, m))
    \/ \E m \in MId : Run(<<"rem_method", m>>, FALSE, RemMethod(Meth, s, m))
    \/ \E v \in Var : Run(<<"rem_variable", v>>, FALSE, RemVariable(Meth, s, v))
    \/ Run(<<"clear">>, FALSE, Clear(Meth, s))
    \/ Run(<<"propagate">>, TRUE, Res(s, {""}))
    \/ \E m \in MId : Run(<<"execute", m>>, TRUE, Execute(s, m))
Spec == Init /\ [][Next]_vars

Key == [vars |-> s.vars, val |-> {<<v, s.val[v]>> : v \in s.vars}, met |-> s.met, pend |-> s.pend, chg |-> s.chg]
NextKey == [vars |-> s'.vars, val |-> {<<v, s'.val[v]>> : v \in s'.vars}, met |-> s'.met, pend |-> s'.pend, chg |-> s'.chg]
View == <<s.vars, s.val, s.met, s.pend, s.chg>>
EmitStep == EmitOn => PrintT("TR " \o ToJson([f |-> Key, a |-> act', t |-> NextKey]))

---------------------------------------------------------------------------
Structure == WellFormed(Meth, s) /\ Acyclic(Meth, s) /\ SingleDetermined(Meth, s)
\* nothing pending: every determined variable is up to date
UpToDate == (s.chg = {} /\ s.pend = {}) => Consistent(Meth, s)
\* the evaluated outcome is what the contract demands, and all it allows
EvalMeetsContract == LET new == EvalAll(Meth, s) IN
    /\ SettleOk(Meth, s, new)
    /\ \A v \in s.vars : \A x \in Values : x # new[v] => ~SettleOk(Meth, s, [new EXCEPT ![v] = x])
\* propagating now and later again is the same as propagating once (M02)
Idempotent == LET t == Settled(Meth, s, EvalAll(Meth, s)) IN EvalAll(Meth, t) = t.val
\* deferring a call and then propagating = propagating first, calling, and propagating again (M02)
Flush(t) == Settled(Meth, t, EvalAll(Meth, t))
DeferEq == \A v \in Settable \cap s.vars, x \in Values : ~Determined(Meth, s, v) =>
    Flush(SetVar(Meth, s, v, x).s).val = Flush(SetVar(Meth, Flush(s), v, x).s).val
DeferAdd == \A m \in MId \ s.met : AddMethod(Meth, s, m).err = {""} =>
    Flush(AddMethod(Meth, s, m).s).val = Flush(AddMethod(Meth, Flush(s), m).s).val
\* refusals leave everything but newly named variables (M03)
RefusalKeeps == [][(act'.err # {""}) => /\ s'.met = s.met /\ s'.pend = s.pend /\ s'.chg = s.chg
                                       /\ \A v \in s'.vars : s'.val[v] = IF v \in s.vars THEN s.val[v] ELSE None]_vars
\* removal removes exactly that (M04)
RemovalExact == [][/\ (act'.op[1] = "rem_method" /\ act'.err = {""}) => /\ s'.met = s.met \ {act'.op[2]} /\ s'.val = s.val
                   /\ (act'.op[1] = "rem_variable" /\ act'.err = {""}) =>
                        /\ s'.vars = s.vars \ {act'.op[2]}
                        /\ \A m \in s.met : (m \in s'.met) <=> act'.op[2] \notin (Ins(Meth, m) \cup Outs(Meth, m))
                        /\ \A v \in s'.vars : s'.val[v] = s.val[v]]_vars
\* only what is downstream of a change changes (M01)
Untouched == [][\A v \in s.vars \cap s'.vars : s'.val[v] # s.val[v] =>
                  \/ act'.op[1] = "set" /\ act'.op[2] = v
                  \/ \E m \in s'.met : v \in Outs(Meth, m)]_vars
=============================================================================
