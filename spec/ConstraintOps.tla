---------------------------- MODULE ConstraintOps ----------------------------
(* Constraint graphs (solver/geometric/constraint.py).  A state is           *)
(* [vars, cons]; C maps a constraint id to the sequence of its variables.    *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[i] : i \in 1..Len(q)}
Empty == [vars |-> {}, cons |-> {}]

Mentions(C, c, v) == v \in Rng(C[c])
On(C, s, v)    == {c \in s.cons : Mentions(C, c, v)}
OnAny(C, s, q) == UNION {On(C, s, v) : v \in Rng(q)}
OnAll(C, s, q) == IF q = <<>> THEN {} ELSE {c \in s.cons : \A v \in Rng(q) : Mentions(C, c, v)}

AddVariable(s, v)      == [s EXCEPT !.vars = @ \cup {v}]
RemVariable(C, s, v)   == IF v \notin s.vars THEN s
                          ELSE [vars |-> s.vars \ {v}, cons |-> {c \in s.cons : ~Mentions(C, c, v)}]
AddConstraint(C, s, c) == [vars |-> s.vars \cup Rng(C[c]), cons |-> s.cons \cup {c}]
RemConstraint(s, c)    == [s EXCEPT !.cons = @ \ {c}]

Apply(C, s, op) ==
    CASE op[1] = "add_variable"   -> AddVariable(s, op[2])
      [] op[1] = "rem_variable"   -> RemVariable(C, s, op[2])
      [] op[1] = "add_constraint" -> AddConstraint(C, s, op[2])
      [] op[1] = "rem_constraint" -> RemConstraint(s, op[2])
      [] OTHER -> s

WellFormed(C, s) == \A c \in s.cons : Rng(C[c]) \subseteq s.vars
\* laws of the queries
QueryLaws(C, s, S) == \A v \in S : /\ OnAny(C, s, <<v>>) = On(C, s, v)
                                   /\ OnAll(C, s, <<v>>) = On(C, s, v)
                                   /\ (v \notin s.vars) => On(C, s, v) = {}
                                   /\ \A w \in S : /\ OnAny(C, s, <<v, w>>) = On(C, s, v) \cup On(C, s, w)
                                                   /\ OnAll(C, s, <<v, w>>) = On(C, s, v) \cap On(C, s, w)
=============================================================================
