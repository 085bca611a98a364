------------------------------ MODULE PlaneCase -----------------------------
(* Expectation and theorems of one case (a record with the kind k).          *)
EXTENDS PlaneOps
Tri(a, b, c, e) == [o |-> Orientation(a, b, c, e), oclear |-> OrientationClear(a, b, c, e),
                    none |-> NoAngle(a, b, c, e), nclear |-> NoAngleClear(a, b, c, e),
                    dot |-> AngDot(a, b, c), sin |-> AngSin(a, b, c), area |-> Area2(a, b, c),
                    p |-> Len2(Sub(a, b)), r |-> Len2(Sub(c, b)), open |-> Opening(a, b, c)]
Expect(x) ==
    CASE x.k = "tri" -> Tri(x.a, x.b, x.c, x.e)
      [] x.k = "ll" -> [pts |-> LL(x.p, x.v, x.q, x.w, {}), origin |-> AtOrigin(x.p, x.v, x.q, x.w), den |-> LLDen(x.v, x.w),
                        lr |-> LL(x.p, x.v, x.q, x.w, {2}), rr |-> LL(x.p, x.v, x.q, x.w, {1, 2})]
      [] x.k = "cl" -> [pts |-> CL(x.p, x.r, x.q, x.v), ray |-> CR(x.p, x.r, x.q, x.v), E |-> CLE(x.p, x.r, x.q, x.v), d2 |-> Len2(x.v)]
      [] x.k = "cc" -> [pts |-> CC(x.p, x.r, x.q, x.s), E |-> CCG(x.p, x.r, x.q, x.s), d2 |-> 4 * Len2(Sub(x.q, x.p))]
      [] x.k = "ch" -> Chord(x.m, x.n, x.g)
      [] x.k = "ln" -> Lens(x.a, x.b, x.c, x.e, x.g)
      [] x.k = "sc" -> [c |-> Cmp(x.a, x.b, TolEq(x.a, x.b, x.An, x.Ad, x.rn, x.rd)), edge |-> TolEdge(x.a, x.b, x.An, x.Ad, x.rn, x.rd),
                        z |-> TolEq(x.a, 0, x.An, x.Ad, x.rn, x.rd), zedge |-> TolEdge(x.a, 0, x.An, x.Ad, x.rn, x.rd)]
      [] x.k = "vc" -> [c |-> VCmp(x.u, x.w, \A i \in {1, 2} : TolEq(x.u[i], x.w[i], x.An, x.Ad, x.rn, x.rd)),
                        edge |-> \E i \in {1, 2} : TolEdge(x.u[i], x.w[i], x.An, x.Ad, x.rn, x.rd)]
      [] x.k = "mat" -> [mul |-> IF Conform(x.A, x.B) THEN MMul(x.A, x.B) ELSE <<>>, tr |-> Tr(x.A),
                         det |-> IF Rows(x.A) = Cols(x.A) THEN Det(x.A) ELSE 0, sq |-> Rows(x.A) = Cols(x.A),
                         adj |-> IF Rows(x.A) = Cols(x.A) THEN Adj(x.A) ELSE <<>>,
                         sol |-> IF Rows(x.A) = Cols(x.A) /\ Conform(x.A, x.B) THEN MMul(Adj(x.A), x.B) ELSE <<>>,
                         id |-> Id(Rows(x.A))]
      [] x.k = "rnd" -> [r |-> RndM(x.M, x.p), tie |-> [i \in 1..Len(x.M) |-> [j \in 1..Len(x.M[1]) |-> RndTie(x.M[i][j], x.p)]]]
      [] x.k = "hcs" -> [none |-> HcsNone(x.a, x.b, x.e), u |-> Sub(x.b, x.a), v |-> Perp(Sub(x.b, x.a)), l |-> Len2(Sub(x.b, x.a)),
                         clear |-> NoAngleClear(x.a, x.b, x.a, x.e)]
      [] x.k = "cst" -> LET u1 == Sub(x.b, x.a) u2 == Sub(x.d, x.c) IN [t |-> Turn(u1, u2), l1 |-> Len2(u1), l2 |-> Len2(u2)]
      [] x.k = "vec" -> [at |-> x.u, add |-> Add(x.u, x.w), sub |-> Sub(x.u, x.w), mul |-> <<x.u[1] * x.w[1], x.u[2] * x.w[2]>>,
                         adk |-> Add(x.u, <<x.n, x.n>>), sbk |-> Sub(x.u, <<x.n, x.n>>), mlk |-> Scale(x.n, x.u), neg |-> Scale(-1, x.u),
                         dot |-> Dot(x.u, x.w), len |-> Len2(x.u), pos |-> x.u[1] >= 0 /\ x.u[2] >= 0, neg2 |-> x.u[1] < 0 /\ x.u[2] < 0, dst |-> Len2(Sub(x.u, x.w))]
      [] x.k = "fun" -> [args |-> [i \in 1..Len(x.vars) |-> x.vals[x.vars[i]]], sat |-> x.ret = 1]
      [] x.k = "plus" -> [sat |-> Add(x.pts[x.vars[1]], x.pts[x.vars[2]]) = x.pts[x.vars[3]]]
      [] x.k = "rot" -> [r |-> Rotated(x.u, x.n, x.g), g |-> Len2(x.g), len |-> Len2(x.u)]
Theorems(x, small) ==
    CASE x.k = "tri" -> TriTheorems(x.a, x.b, x.c, x.e) /\ (small => TriPythagoras(x.a, x.b, x.c))
      [] x.k = "ll" -> LLTheorems(x.p, x.v, x.q, x.w) /\ LLNone(x.p, x.v, x.q, x.w)
      [] x.k = "cl" -> small => CLTheorems(x.p, x.r, x.q, x.v)
      [] x.k = "cc" -> small => CCTheorems(x.p, x.r, x.q, x.s)
      [] x.k = "ch" -> small => ChordTheorems(x.m, x.n, x.g)
      [] x.k = "ln" -> small => LensTheorems(x.a, x.b, x.c, x.e, x.g)
      [] x.k = "sc" -> CmpTheorems(x.a, x.b, TolEq(x.a, x.b, x.An, x.Ad, x.rn, x.rd))
      [] x.k \in {"vc", "fun"} -> TRUE
      [] x.k = "mat" -> MatTheorems(x.A) /\ MulTheorems(x.A, x.B)
      [] x.k = "rnd" -> \A i \in 1..Len(x.M) : \A j \in 1..Len(x.M[1]) : RndTheorem(x.M[i][j], x.p)
      [] x.k = "hcs" -> small => TurnTheorems(Sub(x.b, x.a), <<1, 0>>)
      [] x.k = "cst" -> TurnTheorems(Sub(x.b, x.a), Sub(x.d, x.c))
      [] x.k = "vec" -> Dot(x.u, x.w) = Dot(x.w, x.u) /\ Cardinality({b \in {<<"pos", x.u[1] >= 0 /\ x.u[2] >= 0>>, <<"neg", x.u[1] < 0 /\ x.u[2] < 0>>} : b[2]}) <= 1
      [] x.k = "plus" -> Add(x.pts[x.vars[1]], x.pts[x.vars[2]]) = Add(x.pts[x.vars[2]], x.pts[x.vars[1]])
      [] x.k = "rot" -> RotTheorems(x.u, x.n, x.g)
=============================================================================
