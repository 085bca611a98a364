------------------------------ MODULE PlaneGrid -----------------------------
(* All cases of one kind on a small grid: theorems checked, expectations     *)
(* emitted.                                                                  *)
EXTENDS PlaneCase, TLC, Json
CONSTANTS Kind, M, R
C == -M..M
Pt == C \X C
Dir == Pt \ {<<0, 0>>}
O == <<0, 0>>
\* translation is left to the replay: the first point is the origin
Cases ==
    CASE Kind = "tri" -> [k : {"tri"}, a : {O}, b : Pt, c : Pt, e : {0}]
      [] Kind = "ll" -> [k : {"ll"}, p : {O}, v : Pt, q : Pt, w : Pt]
      [] Kind = "cl" -> [k : {"cl"}, p : {O}, r : 0..R, q : Pt, v : Pt]
      [] Kind = "cc" -> [k : {"cc"}, p : {O}, r : 0..R, q : Pt, s : 0..R]
      [] Kind = "ch" -> [k : {"ch"}, m : 1..M, n : 1..M, g : {-1, 1}]
      [] Kind = "ln" -> [k : {"ln"}, a : 1..M, b : 1..M, c : 1..M, e : 1..M, g : {-1, 1}]
      [] Kind = "sc" -> [k : {"sc"}, a : -M..M, b : -M..M, An : {0, 1, 3}, Ad : {1}, rn : {0, 1}, rd : {1, 2, 4}, e : {-2, 0, 3}]
      [] Kind = "vc" -> [k : {"vc"}, u : Pt, w : {O, <<1, 1>>, <<1, -2>>}, An : {0, 1}, Ad : {1}, rn : {0, 1}, rd : {2}, e : {-1, 2}]
      [] Kind = "hcs" -> [k : {"hcs"}, a : {O}, b : Pt, e : {0}]
      [] Kind = "cst" -> [k : {"cst"}, a : {O}, b : Dir, c : {O, <<1, -2>>}, d : Pt \ {O, <<1, -2>>}]
      [] Kind = "rnd" -> [k : {"rnd"}, M : {<<<<a * 1000 + b, 0 - b>>>> : a \in C, b \in {-500, -3, 0, 4, 499, 501, 999}}, p : 2..6, def : {FALSE}]
      [] Kind = "vec" -> [k : {"vec"}, u : Pt, w : Pt, n : {-2, 0, 1, 3}]
      [] Kind = "fun" -> [k : {"fun"}, vars : UNION {[1..n -> 1..3] : n \in 0..3}, vals : {<<1, 2, 3>>, <<2, 2, 1>>}, ret : 0..5]
      [] Kind = "plus" -> [k : {"plus"}, vars : [1..3 -> 1..3], pts : {<<<<1, 2>>, <<0, 0>>, <<1, 2>>>>} \cup ({<<1, -1>>} \X Pt \X Pt)]
      [] Kind = "rot" -> [k : {"rot"}, u : Pt, n : -5..6, g : {<<1, 0>>, <<4, 3>>, <<5, -12>>}]
VARIABLES x, answered
Init == x \in Cases /\ answered = FALSE
Next == ~answered /\ answered' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, answered>>
Emit == answered => PrintT("EX " \o ToJson([x |-> x, y |-> Expect(x)]))
Hold == answered => Theorems(x, TRUE)
=============================================================================
