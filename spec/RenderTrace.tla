----------------------------- MODULE RenderTrace ----------------------------
(* Recorded histories of twins: the same calls made on two sets of objects,  *)
(* one left alone with logging off (the quiet one), and one whose members    *)
(* are all converted to text before and after every call, with debug logging *)
(* on (the loud one).  Rendering is a stuttering step of the specifications  *)
(* of the objects, and logging is no part of them at all: so after every     *)
(* call both twins must have been observed the same, and each text must name *)
(* the members of the specification's state, and nothing else.               *)
(* A history is [kind, D |-> definitions (methods, constraints), tok |-> ids *)
(* whose text can be recognised, class |-> class ids of the definitions,     *)
(* events].  Ids: names 1.., methods and constraints 100 + k, their classes  *)
(* 200 + k.  An event is [op, h, to, err, quiet, loud |-> observations,       *)
(* mem |-> <<handle, members the object reports>>.., texts |-> <<handle,      *)
(* error, ids shown>>.., fmt |-> log records that could not be formatted].    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
G == INSTANCE GraphOps
M == INSTANCE MethodOps
C == INSTANCE ConstraintOps
K == INSTANCE ClusterOps
Traces == JsonDeserialize("trace.json")
VARIABLES h, l, st, out
vars == <<h, l, st, out>>
T == Traces[h]
Ev == T.events[l]
Handles == 1..9

Blank(kind) == CASE kind = "graph" -> G!EmptyGraph
                 [] kind = "method" -> M!Empty
                 [] kind = "constraint" -> C!Empty
                 [] OTHER -> {}
Init == /\ h \in 1..Len(Traces) /\ l = 1 /\ out = "on"
        /\ st = [k \in Handles |-> Blank(Traces[h].kind)]

Cl(r) == [t |-> r.t, c |-> r.c, x |-> ToSet(r.x)]
ClassOf(ms) == {T.class[m] : m \in ms}
\* the ids that a text of the object with this state names
Named(kind, s) ==
    CASE kind = "graph" -> s.V
      [] kind = "method" -> s.vars \cup {100 + m : m \in s.met} \cup ClassOf(s.met)
      [] kind = "constraint" -> s.vars \cup {100 + c : c \in s.cons} \cup ClassOf(s.cons)
      [] OTHER -> s

\* the names of objects that never change, by what they were made of
Fixed(o) == CASE o[1] = "cluster" -> K!Points(Cl(o[2]))
              [] o[1] = "inter" -> LET a == Cl(o[2]) b == Cl(o[3]) IN     \* as K!Points(K!Inter(a, b)), without listing all angles
                                   IF a.t = "R" /\ b.t = "R" THEN a.x \cap b.x ELSE K!Points(K!Inter(a, b))
              [] OTHER -> ToSet(o[2])        \* a relation, method or constraint: all its points or variables

GraphStep(e) ==
    IF e.op[1] = "bulk" THEN       \* many edges added, one by one
       [st EXCEPT ![e.h] = FoldSeq(LAMBDA x, g : G!Apply(g, <<"add_edge", x[1], x[2], 1>>).g, @, e.op[2])]
    ELSE IF e.op[1] \in {"copy", "ctor", "reverse", "subgraph"} THEN
       [st EXCEPT ![e.to] = CASE e.op[1] = "reverse" -> G!Reverse(st[e.h])
                              [] e.op[1] = "subgraph" -> G!Subgraph(st[e.h], ToSet(e.op[2]))
                              [] OTHER -> st[e.h]]
    ELSE IF e.op[1] \in {"path", "connected", "connected_in", "connected_out", "via_in", "via_out", "subsets", "get"} THEN st
    ELSE [st EXCEPT ![e.h] = G!Apply(@, e.op).g]
MethodStep(e) ==
    LET n == e.op[1] s == st[1]
        r == CASE n = "add_variable" -> M!AddVariable(s, e.op[2], M!None)
               [] n = "add_method"   -> M!AddMethod(T.D, s, e.op[2])
               [] n = "rem_method"   -> M!RemMethod(T.D, s, e.op[2])
               [] n = "rem_variable" -> M!RemVariable(T.D, s, e.op[2])
               [] n = "clear"        -> M!Clear(T.D, s)
               [] OTHER              -> M!Res(s, {""})
    IN  [st EXCEPT ![1] = r.s]
ConfigStep(e) ==
    IF e.to = 0 THEN st
    ELSE [st EXCEPT ![e.to] = CASE e.op[1] = "new" -> ToSet(e.op[2])
                                [] e.op[1] = "select" -> st[e.h] \cap ToSet(e.op[2])
                                [] e.op[1] \in {"add", "merge"} -> st[e.h] \cup st[e.op[2]]
                                [] OTHER -> st[e.h]]
Step(e) == CASE T.kind = "graph" -> GraphStep(e)
             [] T.kind = "method" -> MethodStep(e)
             [] T.kind = "constraint" -> [st EXCEPT ![1] = C!Apply(T.D, @, e.op)]
             [] T.kind = "config" -> ConfigStep(e)
             [] OTHER -> [k \in Handles |-> IF k <= Len(e.op) THEN Fixed(e.op[k]) ELSE {}]

Clauses(e, t) ==
    (IF e.quiet = e.loud THEN {} ELSE {"result_affected"})
    \cup (IF e.fmt = 0 THEN {} ELSE {"log_record"})
    \cup {"raises" : i \in {k \in 1..Len(e.texts) : e.texts[k][2] # ""}}
    \cup {"removed_named" : i \in {k \in 1..Len(e.texts) : e.texts[k][2] = "" /\ ToSet(e.texts[k][3]) \ Named(T.kind, t[e.texts[k][1]]) # {}}}
    \cup {"member_missing" : i \in {k \in 1..Len(e.texts) : e.texts[k][2] = "" /\ (Named(T.kind, t[e.texts[k][1]]) \cap ToSet(T.tok)) \ ToSet(e.texts[k][3]) # {}}}
\* the object does not report the members it should have: another property's business
Astray(e, t) == \E i \in 1..Len(e.mem) : ToSet(e.mem[i][2]) # Named(T.kind, t[e.mem[i][1]])

Next == /\ out = "on" /\ l <= Len(T.events)
        /\ LET e == Ev
               t == Step(e)
               bad == Clauses(e, t)
               off == Astray(e, t)
               hard == bad \cap {"result_affected", "log_record", "raises"}
           IN  /\ st' = t /\ l' = l + 1
               /\ IF (off /\ hard # {}) \/ (~off /\ bad # {})
                  THEN PrintT("BAD " \o ToJson([h |-> h, l |-> l, clauses |-> IF off THEN hard ELSE bad])) /\ out' = "bad"
                  ELSE IF off THEN PrintT("DONE " \o ToString(h)) /\ PrintT("ASTRAY " \o ToString(h)) /\ out' = "astray"
                  ELSE out' = "on"
        /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Report == (out = "on" /\ l > Len(T.events)) => PrintT("DONE " \o ToString(h))
=============================================================================
