------------------------------ MODULE MethodAlgo ------------------------------
(* The propagation algorithm as the code runs it, one method execution per   *)
(* step: first the methods never executed, then, per changed variable, the   *)
(* methods using it, and only then the variable's change flag is cleared.    *)
(* Which pending method, changed variable or using method is taken next is   *)
(* left open.  An execution may raise an error, which ends the call.         *)
(* Checked: every completed propagation meets the contract (SettleOk), every *)
(* aborted one meets the abort contract, the graph is consistent whenever no *)
(* override is left, propagation terminates, and its result does not depend  *)
(* on the order taken.                                                       *)
EXTENDS MethodOps, TLC
CONSTANTS Var, Meth, Values, MaxOps, Settable, InitMet, AllowFault, AllowOverride, AllowRemove
MId == DOMAIN Meth
VARIABLES s,      \* the graph
          start,  \* state when the running propagation started
          phase,  \* "idle", "pend", "vars", "meths"
          cur,    \* variable whose methods are being executed
          todo,   \* its methods still to be executed
          dirty,  \* an override or fault made the graph possibly inconsistent
          n       \* number of user calls so far
vars == <<s, start, phase, cur, todo, dirty, n>>

Fresh == [Empty EXCEPT !.vars = UNION {Ins(Meth, m) \cup Outs(Meth, m) : m \in InitMet}]
Start0 == LET t == [Fresh EXCEPT !.val = [v \in Fresh.vars |-> None], !.met = InitMet, !.pend = InitMet]
          IN  Settled(Meth, t, EvalAll(Meth, t))
Init == s = Start0 /\ start = Empty /\ phase = "idle" /\ cur = 0 /\ todo = {} /\ dirty = FALSE /\ n = 0

Idle == phase = "idle" /\ n < MaxOps
User(r) == /\ s' = r.s /\ n' = n + 1
           /\ UNCHANGED <<start, phase, cur, todo>>

UAddVariable == Idle /\ \E v \in (Var \ s.vars), x \in Values : (v \in Settable \/ IsNone(x)) /\ User(AddVariable(s, v, x)) /\ UNCHANGED dirty
USet         == Idle /\ \E v \in (s.vars \cap Settable), x \in Values :
                    /\ Determined(Meth, s, v) => AllowOverride
                    /\ User(SetVar(Meth, s, v, x)) /\ dirty' = (dirty \/ Determined(Meth, s, v))
UAddMethod   == Idle /\ \E m \in MId \ s.met : User(AddMethod(Meth, s, m)) /\ UNCHANGED dirty
URemMethod   == Idle /\ AllowRemove /\ \E m \in s.met : User(RemMethod(Meth, s, m)) /\ UNCHANGED dirty
URemVariable == Idle /\ AllowRemove /\ \E v \in s.vars : User(RemVariable(Meth, s, v)) /\ UNCHANGED dirty

StartProp == /\ phase = "idle" /\ (s.chg # {} \/ s.pend # {})
             /\ start' = s /\ phase' = "pend"
             /\ UNCHANGED <<s, cur, todo, dirty, n>>

\* one execution of method m: outputs written and flagged
Exec(m) ==
    LET new(v) == Yields(Meth, m, s.val, v)
        O == Outs(Meth, m)
    IN  s' = [s EXCEPT !.val = [v \in s.vars |-> IF v \in O THEN new(v) ELSE s.val[v]],
                       !.chg = @ \cup {v \in O : ~IsNone(new(v)) \/ ~IsNone(s.val[v])},
                       !.pend = @ \ {m}]

ExecPending == /\ phase = "pend"
               /\ \E m \in s.pend : Exec(m)
               /\ UNCHANGED <<start, phase, cur, todo, dirty, n>>
PendingDone == /\ phase = "pend" /\ s.pend = {}
               /\ phase' = "vars" /\ UNCHANGED <<s, start, cur, todo, dirty, n>>
Pick == /\ phase = "vars"
        /\ \E v \in s.chg : cur' = v /\ todo' = {m \in s.met : v \in Ins(Meth, m)}
        /\ phase' = "meths" /\ UNCHANGED <<s, start, dirty, n>>
ExecUser == /\ phase = "meths"
            /\ \E m \in todo : Exec(m) /\ todo' = todo \ {m}
            /\ UNCHANGED <<start, phase, cur, dirty, n>>
Unflag == /\ phase = "meths" /\ todo = {}
          /\ s' = [s EXCEPT !.chg = @ \ {cur}]
          /\ phase' = "vars" /\ cur' = 0 /\ UNCHANGED <<start, todo, dirty, n>>
Finish == /\ phase = "vars" /\ s.chg = {}
          /\ phase' = "idle" /\ s' = Settled(Meth, s, s.val)
          /\ UNCHANGED <<start, cur, todo, dirty, n>>
\* a method about to be executed raises: everything is left as it is
\* (chg and pend stay what the algorithm has; base/soft are contract bookkeeping)
Raise == /\ AllowFault
         /\ \/ phase = "pend" /\ s.pend # {}
            \/ phase = "meths" /\ todo # {}
         /\ phase' = "idle" /\ cur' = 0 /\ todo' = {}
         /\ s' = [s EXCEPT !.man = Aborted(Meth, start, s.val).man]
         /\ UNCHANGED <<start, dirty, n>>

Prop == ExecPending \/ PendingDone \/ Pick \/ ExecUser \/ Unflag \/ Finish
Next == UAddVariable \/ USet \/ UAddMethod \/ URemMethod \/ URemVariable \/ StartProp \/ Prop \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Prop)

---------------------------------------------------------------------------
Structure == WellFormed(Meth, s) /\ Acyclic(Meth, s) /\ SingleDetermined(Meth, s)
UpToDate  == (phase = "idle" /\ s.chg = {} /\ s.pend = {} /\ ~dirty) => Consistent(Meth, s)
\* completed propagation meets the contract
MeetsContract == [][(phase = "vars" /\ phase' = "idle") => SettleOk(Meth, start, s'.val)]_vars
\* at every point at which an error can end it, so does an aborted one
AbortContract == phase \in {"pend", "meths"} => AbortBad(Meth, start, s.val) = {}
\* without overrides the contract allows one outcome only, so order does not matter:
\* any other value of any variable would break it
Unique == [][(phase = "vars" /\ phase' = "idle" /\ ~dirty) =>
              \A v \in s.vars, x \in Values : x # s'.val[v] => ~SettleOk(Meth, start, [s'.val EXCEPT ![v] = x])]_vars
\* a lost update would show as an inconsistency that nothing pending will repair
NothingLost == (phase = "idle" /\ ~dirty) =>
    \A v \in s.vars : \A m \in Producers(Meth, s.met, v) :
        s.val[v] # Yields(Meth, m, s.val, v) =>
            m \in s.pend \/ v \in DownSet(Meth, s.met, s.chg \cup OutsOf(Meth, s.pend))
Terminates == (phase # "idle") ~> (phase = "idle")
=============================================================================
