---------------------------- MODULE ConstraintMC ----------------------------
(* Exhaustive model of a ConstraintGraph under its calls; every state, with  *)
(* the answer to every query, and every transition is emitted.               *)
EXTENDS ConstraintOps, TLC, Json, SequencesExt
CONSTANTS Var, CTab
VARIABLES s, act
vars == <<s, act>>
CId == DOMAIN CTab
Table == << <<1, 2>>, <<2, 3, 4>>, <<1, 1>>, <<3>>, <<4, 1, 2>> >>
Init == s = Empty /\ act = <<"init">>
Next == \E op \in ({"add_variable", "rem_variable"} \X Var) \cup ({"add_constraint", "rem_constraint"} \X CId) :
            s' = Apply(CTab, s, op) /\ act' = op
Spec == Init /\ [][Next]_vars
View == s
Selections == SUBSET Var
EmitState == PrintT("ST " \o ToJson([s |-> s, on |-> {<<v, On(CTab, s, v)>> : v \in Var},
    any |-> {<<S, OnAny(CTab, s, SetToSeq(S))>> : S \in Selections},
    all |-> {<<S, OnAll(CTab, s, SetToSeq(S))>> : S \in Selections}]))
EmitStep == PrintT("TR " \o ToJson([f |-> s, a |-> act', t |-> s']))
Laws == WellFormed(CTab, s) /\ QueryLaws(CTab, s, Var)
\* removing is complete and removes nothing else; adding again remembers nothing
RemovalExact == [][
    /\ act'[1] = "rem_variable" => /\ s'.vars = s.vars \ {act'[2]}
                                   /\ \A c \in s.cons : (c \in s'.cons) <=> (act'[2] \notin s.vars \/ ~Mentions(CTab, c, act'[2]))
                                   /\ On(CTab, s', act'[2]) = {}
    /\ act'[1] = "rem_constraint" => s'.vars = s.vars /\ s'.cons = s.cons \ {act'[2]}
    /\ act'[1] \in {"add_variable", "add_constraint"} => s.vars \subseteq s'.vars /\ s.cons \subseteq s'.cons]_vars
=============================================================================
