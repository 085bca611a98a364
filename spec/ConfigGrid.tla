------------------------------ MODULE ConfigGrid ----------------------------
(* All pairs of configurations of up to N names on a small grid.             *)
EXTENDS ConfigCase, TLC, Json
CONSTANTS N, W, H
Grid == (0..W) \X (0..H)
Absent == <<-1, -1>>
Maps == [1..N -> Grid \cup {Absent}]
Cfg(g) == [m |-> LET V == SetToSortSeq({n \in 1..N : g[n] # Absent}, <) IN [i \in 1..Len(V) |-> <<V[i], g[V[i]][1], g[V[i]][2]>>], f |-> FALSE]
\* (only the motion of b onto a matters: the first point of a is the origin)
VARIABLES g, h, answered
Init == /\ answered = FALSE
        /\ g \in Maps /\ h \in Maps
        /\ \A n \in 1..N : (g[n] # Absent /\ \A k \in 1..(n - 1) : g[k] = Absent) => g[n] = <<0, 0>>
Next == ~answered /\ answered' = TRUE /\ UNCHANGED <<g, h>>
Spec == Init /\ [][Next]_<<g, h, answered>>
x == [a |-> Cfg(g), b |-> Cfg(h), s |-> <<1, N>>, t |-> <<<<1, 2, -1>>, <<0, 1, 3>>, <<0, 0, 2>>>>]
Emit == answered => PrintT("EX " \o ToJson([x |-> x, y |-> Expect(x)]))
Hold == answered => Theorems(x)
=============================================================================
