----------------------------- MODULE Intervals -----------------------------
(* Sets of numbers 1..1000000 as sets of disjoint intervals <<lo, hi>>.       *)
EXTENDS Integers, FiniteSets
Span(I) == UNION {i[1]..i[2] : i \in I}
RECURSIVE Size(_)
Size(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN i[2] - i[1] + 1 + Size(I \ {i})
In(p, I) == \E i \in I : i[1] <= p /\ p <= i[2]
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Meet(I, J) == {k \in {<<Max2(i[1], j[1]), Min2(i[2], j[2])>> : i \in I, j \in J} : k[1] <= k[2]}
Outside(I, lo, hi) == Meet(I, {<<1, lo - 1>>, <<hi + 1, 1000000>>})
Less(I, p) == Outside(I, p, p)
With(I, lo, hi) == IF lo > hi THEN I ELSE Outside(I, lo, hi) \cup {<<lo, hi>>}
Good(I) == \A i, j \in I : i # j => (i[2] < j[1] \/ j[2] < i[1])
=============================================================================
