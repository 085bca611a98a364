------------------------------ MODULE PlaneOps ------------------------------
(* Exact plane geometry over the integers: what solver/geometry.py has to    *)
(* compute.  Points and vectors are <<x, y>>.  Results with roots are        *)
(* [d, c, xa, xb, ya, yb]: the point ((xa + xb*sqrt(c))/d, (ya + yb*sqrt(c))/d). *)
EXTENDS Integers, Sequences, FiniteSets

Abs(a)  == IF a < 0 THEN -a ELSE a
Sgn(a)  == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Sub(p, q)   == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q)   == <<p[1] + q[1], p[2] + q[2]>>
Dot(u, v)   == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Len2(u)     == Dot(u, u)
Scale(k, u) == <<k * u[1], k * u[2]>>
Perp(u)     == <<-u[2], u[1]>>
\* complex product: rotation (and scaling) of one vector by another
Times(u, v) == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
Conj(u)     == <<u[1], -u[2]>>
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

---------------------------------------------------------------------------
\* Triples of points, coordinates in units of 10^-e (tolerances: 10^-8)
Area2(p, q, r) == Cross(Sub(q, p), Sub(r, q))
AreaTol(e) == IF e >= 9 THEN 2147483647 ELSE IF e >= 4 THEN Pow(10, 2 * e - 8) ELSE 0    \* from 10^-9 on, all areas here are flat
Len2Tol(e) == IF 2 * e >= 16 THEN Pow(10, 2 * e - 16) ELSE 0
Orientation(p, q, r, e) == LET a == Area2(p, q, r) IN
    IF Abs(a) <= AreaTol(e) THEN "flat" ELSE IF a < 0 THEN "cw" ELSE "ccw"
\* close to where the tolerance ends, rounding decides
OrientationClear(p, q, r, e) == LET a == Abs(Area2(p, q, r)) t == AreaTol(e) IN
    IF t <= 1 THEN a # t \/ a = 0 ELSE Abs(a - t) > t \div 20
NoAngle(p, q, r, e) == Len2(Sub(p, q)) <= Len2Tol(e) \/ Len2(Sub(r, q)) <= Len2Tol(e)
NoAngleClear(p, q, r, e) == LET t == Len2Tol(e) IN
    \A d \in {Len2(Sub(p, q)), Len2(Sub(r, q))} : IF t <= 1 THEN d # t \/ d = 0 ELSE Abs(d - t) > t \div 20
\* The angle at q is the one whose cosine is AngDot/(|qp||qr|) and whose sine is AngSin/(|qp||qr|)
AngDot(p, q, r) == Dot(Sub(p, q), Sub(r, q))
AngSin(p, q, r) == Cross(Sub(p, q), Sub(r, q))
\* acute, right or obtuse; "edge": so close to a right angle that the tolerance ends there
Opening(p, q, r) == LET d == AngDot(p, q, r) s == Abs(AngSin(p, q, r)) IN
    IF d = 0 \/ Abs(d) <= s \div 70000 THEN "right"
    ELSE IF Abs(d) <= s \div 50000 + 1 /\ s >= 50000 THEN "edge"
    ELSE IF d > 0 THEN "acute" ELSE "obtuse"

TriTheorems(p, q, r, e) ==
    /\ Area2(p, q, r) = -Area2(r, q, p)
    /\ Area2(p, q, r) = Area2(q, r, p)
    /\ AngSin(p, q, r) = -Area2(p, q, r)
    /\ AngSin(r, q, p) = -AngSin(p, q, r) /\ AngDot(r, q, p) = AngDot(p, q, r)
    /\ NoAngle(p, q, r, 0) => Area2(p, q, r) = 0
    /\ (p = q \/ q = r \/ p = r) => Orientation(p, q, r, e) = "flat"
\* cos^2 + sin^2 = 1, so that the two determine one angle (small coordinates only)
TriPythagoras(p, q, r) ==
    AngDot(p, q, r) * AngDot(p, q, r) + AngSin(p, q, r) * AngSin(p, q, r) = Len2(Sub(p, q)) * Len2(Sub(r, q))

---------------------------------------------------------------------------
\* Lines and rays: base point and direction. A direction without length names no line: it is parallel to all, and meets nothing.
Parallel(v, w) == Cross(v, w) = 0
\* the meeting point is LLPoint/LLDen
LLDen(v, w) == Cross(v, w)
LLPoint(p, v, q, w) == LET K == Cross(v, w) T == Cross(Sub(q, p), w) IN Add(Scale(K, p), Scale(T, v))
InFront(X, K, q, w) == Sgn(Dot(Sub(X, Scale(K, q)), w)) * Sgn(K) >= 0
LL(p, v, q, w, rays) ==
    IF Parallel(v, w) THEN <<>>
    ELSE LET K == LLDen(v, w) X == LLPoint(p, v, q, w)
         IN  IF (1 \in rays => InFront(X, K, p, v)) /\ (2 \in rays => InFront(X, K, q, w))
             THEN <<[d |-> K, c |-> 0, xa |-> X[1], xb |-> 0, ya |-> X[2], yb |-> 0]>> ELSE <<>>
\* whether the point is at the very origin of a ray
AtOrigin(p, v, q, w) == ~Parallel(v, w) /\ LET K == LLDen(v, w) X == LLPoint(p, v, q, w) IN X = Scale(K, p) \/ X = Scale(K, q)
LLTheorems(p, v, q, w) == ~Parallel(v, w) =>
    LET K == LLDen(v, w) X == LLPoint(p, v, q, w) Y == LLPoint(q, w, p, v)
    IN  /\ Cross(Sub(X, Scale(K, p)), v) = 0        \* on the one line
        /\ Cross(Sub(X, Scale(K, q)), w) = 0        \* and on the other
        /\ Y = Scale(-1, X)                         \* whichever comes first (the denominator changes sign too)
        /\ LET Z == LLPoint(p, Scale(-1, v), q, w) IN Z = Scale(-1, X)    \* whatever the sense
\* parallel lines that are not the same have no common point, tested along the first one
LLNone(p, v, q, w) == (Parallel(v, w) /\ v # <<0, 0>> /\ w # <<0, 0>> /\ Cross(Sub(q, p), v) # 0) => \A t \in -3..3 : Cross(Sub(Add(p, Scale(t, v)), q), w) # 0

---------------------------------------------------------------------------
\* Circles (centre, radius >= 0)
\* circle and line: half chord^2 is CLE/|v|^2
CLE(p, r, q, v) == LET D == Cross(Sub(q, p), v) IN r * r * Len2(v) - D * D
CLPoint(p, r, q, v, s) ==
    LET d2 == Len2(v) D == Cross(Sub(q, p), v)
    IN  [d |-> d2, c |-> CLE(p, r, q, v), xa |-> d2 * p[1] + D * v[2], xb |-> s * v[1], ya |-> d2 * p[2] - D * v[1], yb |-> s * v[2]]
CL(p, r, q, v) == LET E == CLE(p, r, q, v) IN
    IF E < 0 \/ v = <<0, 0>> THEN <<>> ELSE IF E = 0 THEN <<CLPoint(p, r, q, v, 0)>> ELSE <<CLPoint(p, r, q, v, 1), CLPoint(p, r, q, v, -1)>>
\* its point with root sign s is in front of q iff m + s*sqrt(E) >= 0, m = (p - q).v
RootAtLeast0(m, s, E) == IF s = 0 \/ E = 0 THEN m >= 0 ELSE IF s > 0 THEN m >= 0 \/ m * m <= E ELSE m >= 0 /\ m * m >= E
CR(p, r, q, v) == LET E == CLE(p, r, q, v) m == Dot(Sub(p, q), v) IN
    IF E < 0 \/ v = <<0, 0>> THEN <<>>
    ELSE IF E = 0 THEN IF m >= 0 THEN <<CLPoint(p, r, q, v, 0)>> ELSE <<>>
    ELSE (IF RootAtLeast0(m, 1, E) THEN <<CLPoint(p, r, q, v, 1)>> ELSE <<>>)
      \o (IF RootAtLeast0(m, -1, E) THEN <<CLPoint(p, r, q, v, -1)>> ELSE <<>>)
\* circle and circle
CCK(r, s, d2) == r * r - s * s + d2
CCG(p, r, q, s) == LET d2 == Len2(Sub(q, p)) K == CCK(r, s, d2) IN 4 * r * r * d2 - K * K     \* 4*|pq|^2 * (half chord)^2
CCPoint(p, r, q, s, g) ==
    LET u == Sub(q, p) d2 == Len2(u) K == CCK(r, s, d2)
    IN  [d |-> 2 * d2, c |-> CCG(p, r, q, s), xa |-> 2 * d2 * p[1] + K * u[1], xb |-> -g * u[2], ya |-> 2 * d2 * p[2] + K * u[2], yb |-> g * u[1]]
CC(p, r, q, s) ==
    IF p = q THEN <<>> ELSE LET G == CCG(p, r, q, s) IN
    IF G < 0 THEN <<>> ELSE IF G = 0 THEN <<CCPoint(p, r, q, s, 0)>> ELSE <<CCPoint(p, r, q, s, 1), CCPoint(p, r, q, s, -1)>>

\* arithmetic in Z[sqrt(c)]
SMul(a, b, c) == <<a[1] * b[1] + c * a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
SAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
\* the point is on the circle (p, r)
OnCircle(X, p, r) ==
    LET x == <<X.xa - X.d * p[1], X.xb>> y == <<X.ya - X.d * p[2], X.yb>>
    IN  SAdd(SMul(x, x, X.c), SMul(y, y, X.c)) = <<X.d * X.d * r * r, 0>>
OnLine(X, q, v) == (X.xa - X.d * q[1]) * v[2] = (X.ya - X.d * q[2]) * v[1] /\ X.xb * v[2] = X.yb * v[1]
CLTheorems(p, r, q, v) ==
    /\ \A i \in 1..Len(CL(p, r, q, v)) : OnCircle(CL(p, r, q, v)[i], p, r) /\ OnLine(CL(p, r, q, v)[i], q, v)
    /\ Len(CL(p, r, q, v)) = Len(CL(p, r, q, Scale(-1, v))) /\ Len(CL(p, r, q, v)) = Len(CL(p, r, Add(q, v), Scale(2, v)))
    \* every point of the line that is on the circle belongs to a ray, one way or the other
    /\ Len(CR(p, r, q, v)) + Len(CR(p, r, q, Scale(-1, v))) >= Len(CL(p, r, q, v))
    /\ (Len2(Sub(p, q)) < r * r /\ v # <<0, 0>>) => Len(CR(p, r, q, v)) = 1       \* a ray from inside leaves once
    \* missed by the line: the foot of the perpendicular is outside
    /\ (CL(p, r, q, v) = <<>> /\ v # <<0, 0>>) => \A t \in -3..3 : Len2(Sub(Add(q, Scale(t, v)), p)) > r * r
CCTheorems(p, r, q, s) ==
    /\ \A i \in 1..Len(CC(p, r, q, s)) : OnCircle(CC(p, r, q, s)[i], p, r) /\ OnCircle(CC(p, r, q, s)[i], q, s)
    /\ Len(CC(p, r, q, s)) = Len(CC(q, s, p, r))
    /\ p # q => LET d2 == Len2(Sub(q, p)) IN      \* apart, nested, tangent or crossing, by the distance of the centres
         /\ (CC(p, r, q, s) = <<>>) = (d2 > (r + s) * (r + s) \/ d2 < (r - s) * (r - s))
         /\ (Len(CC(p, r, q, s)) = 1) = (d2 = (r + s) * (r + s) \/ d2 = (r - s) * (r - s))

\* Large circles with a short common chord, in closed form: triangles (m^2-n^2, 2mn, m^2+n^2) and
\* ((mn)^2-1, 2mn, (mn)^2+1) share the height 2mn; g = 1: the centres on both sides of the chord.
\* The theorems are polynomial identities of degree at most 4 in m and in n, so that
\* holding for 1..6 they hold everywhere (the numbers themselves are too large to check one by one).
ChX(m, n) == m * m - n * n
ChR(m, n) == m * m + n * n
ChH(m, n) == 2 * m * n
ChY(m, n) == m * n * m * n - 1
ChS(m, n) == m * n * m * n + 1
Chord(m, n, g) == [r |-> ChR(m, n), s |-> ChS(m, n), x |-> ChX(m, n), h |-> ChH(m, n), d |-> ChX(m, n) + g * ChY(m, n)]
ChordTheorems(m, n, g) == LET c == Chord(m, n, g) IN
    /\ c.x * c.x + c.h * c.h = c.r * c.r
    /\ (c.d - c.x) * (c.d - c.x) + c.h * c.h = c.s * c.s
    /\ (c.d # 0 /\ m < 4 /\ n < 4) => CCG(<<0, 0>>, c.r, <<c.d, 0>>, c.s) = 4 * c.d * c.d * c.h * c.h
\* Circles whose centres are close together, for their size: the triangles of (ab, ce) and (ac, be) share the height 2abce,
\* and are slim when a, b, c, e are nearly the same; with b = c the circles are of one size.
Lens(a, b, c, e, g) == LET x == ChX(a * b, c * e) y == ChX(a * c, b * e) IN
    [r |-> ChR(a * b, c * e), s |-> ChR(a * c, b * e), x |-> x, h |-> ChH(a * b, c * e), d |-> x + g * y]
LensTheorems(a, b, c, e, g) == LET k == Lens(a, b, c, e, g) IN
    /\ k.x * k.x + k.h * k.h = k.r * k.r
    /\ (k.d - k.x) * (k.d - k.x) + k.h * k.h = k.s * k.s
    /\ (k.d # 0 /\ a < 3 /\ b < 3 /\ c < 3 /\ e < 3) => CCG(<<0, 0>>, k.r, <<k.d, 0>>, k.s) = 4 * k.d * k.d * k.h * k.h

---------------------------------------------------------------------------
\* Tolerant comparisons: |a - b| <= An/Ad + rn*|b|/rd, all in the same units
TolEq(a, b, An, Ad, rn, rd) ==
    LET d == Abs(a - b) y == rn * Abs(b)
        q == (An \div Ad) + (y \div rd) f == An % Ad g == y % rd
    IN  d <= q \/ (d = q + 1 /\ f > 0 /\ g > 0 /\ (rd - g) * Ad <= f * rd)
\* the two sides are exactly equal: with tolerances that floats cannot represent, rounding decides
TolEdge(a, b, An, Ad, rn, rd) ==
    LET d == Abs(a - b) y == rn * Abs(b)
        q == (An \div Ad) + (y \div rd) f == An % Ad g == y % rd
    IN  (d = q /\ f = 0 /\ g = 0 /\ (An # 0 \/ y # 0) /\ d # 0) \/ (d = q + 1 /\ f > 0 /\ g > 0 /\ (rd - g) * Ad = f * rd)
Cmp(a, b, eq) == [eq |-> eq, lt |-> a < b /\ ~eq, gt |-> a > b /\ ~eq, le |-> a < b \/ eq, ge |-> a > b \/ eq]
VCmp(u, w, eq) == LET lt == u[1] < w[1] /\ u[2] < w[2] gt == u[1] > w[1] /\ u[2] > w[2]
    IN  [eq |-> eq, lt |-> lt /\ ~eq, gt |-> gt /\ ~eq, le |-> lt \/ eq, ge |-> gt \/ eq,
         xeq |-> u = w, xlt |-> lt, xgt |-> gt, xle |-> u[1] <= w[1] /\ u[2] <= w[2], xge |-> u[1] >= w[1] /\ u[2] >= w[2]]
CmpTheorems(a, b, eq) == LET c == Cmp(a, b, eq) IN
    /\ Cardinality({k \in {"eq", "lt", "gt"} : c[k]}) = 1
    /\ c.le = (c.lt \/ c.eq)
    /\ c.ge = (c.gt \/ c.eq)

---------------------------------------------------------------------------
\* Matrices: sequences of rows
Rows(A) == Len(A)
Cols(A) == Len(A[1])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Conform(A, B) == Cols(A) = Rows(B)
MMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> Sum([k \in 1..Cols(A) |-> A[i][k] * B[k][j]])]]
Tr(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
\* entries in millionths, rounded to p decimals (negative p: tens, hundreds); halfway cases are not judged
RndUnit(p) == 10 ^ (6 - p)
RndTo(n, p) == RndUnit(p) * ((2 * n + RndUnit(p)) \div (2 * RndUnit(p)))
RndTie(n, p) == RndUnit(p) > 1 /\ (2 * n + RndUnit(p)) % (2 * RndUnit(p)) = 0
RndM(A, p) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RndTo(A[i][j], p)]]
RndTheorem(n, p) == LET r == RndTo(n, p) u == RndUnit(p) IN
    /\ r % u = 0 /\ RndTo(r, p) = r /\ 2 * (r - n) <= u /\ 2 * (n - r) <= u
    /\ (RndTie(n, p) \/ (RndTo(-n, p) = -r /\ \A c \in {u * (n \div u), u * (n \div u + 1)} : (c # r => (IF c > n THEN c - n ELSE n - c) > (IF r > n THEN r - n ELSE n - r))))
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Minor(A, i, j) == [r \in 1..(Rows(A) - 1) |-> [c \in 1..(Cols(A) - 1) |-> A[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(A) == IF Rows(A) = 1 THEN A[1][1]
          ELSE Sum([j \in 1..Cols(A) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))])
Adj(A) == IF Rows(A) = 1 THEN <<<<1>>>>
          ELSE [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))]]
ScaleM(k, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> k * A[i][j]]]
MatTheorems(A) ==
    /\ Tr(Tr(A)) = A
    /\ MMul(Id(Rows(A)), A) = A /\ MMul(A, Id(Cols(A))) = A
    /\ Rows(A) = Cols(A) => /\ MMul(A, Adj(A)) = ScaleM(Det(A), Id(Rows(A)))
                            /\ MMul(Adj(A), A) = ScaleM(Det(A), Id(Rows(A)))
                            /\ Det(Tr(A)) = Det(A)
MulTheorems(A, B) == Conform(A, B) => Tr(MMul(A, B)) = MMul(Tr(B), Tr(A))

\* Coordinate systems: axes u and Perp(u) (divided by |u| unless scaled), origin a
HcsNone(a, b, e) == Len2(Sub(b, a)) <= Len2Tol(e)
\* the rotation (and scaling) taking axis u1 to axis u2 is the complex number Times(u2, Conj(u1))/|u1|^2
Turn(u1, u2) == Times(u2, Conj(u1))
TurnTheorems(u1, u2) ==
    /\ Times(Turn(u1, u2), u1) = Scale(Len2(u1), u2)                \* axis to axis
    /\ Times(Turn(u1, u2), Perp(u1)) = Scale(Len2(u1), Perp(u2))    \* the other one too
    /\ Len2(Turn(u1, u2)) = Len2(u1) * Len2(u2)
    /\ Dot(u1, Perp(u1)) = 0 /\ Cross(u1, Perp(u1)) = Len2(u1)      \* quarter turn counter-clockwise

\* Rotation by k quarter turns and then by the angle of g (g # 0): the vector Rotated/|g|
Quarter(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Rotated(u, k, g) == Times(Times(u, Quarter(k)), g)
RotTheorems(u, k, g) ==
    /\ Len2(Rotated(u, k, g)) = Len2(u) * Len2(g)                                  \* length kept
    /\ Rotated(Rotated(u, k, g), -k, Conj(g)) = Scale(Len2(g), u)                  \* undone by the opposite angle
    /\ Rotated(Rotated(u, k, g), 1, <<1, 0>>) = Rotated(u, k + 1, g)               \* angles add
    /\ Rotated(u, k + 4, g) = Rotated(u, k, g)
    /\ (k % 4 = 0 /\ g[2] > 0) => Cross(u, Rotated(u, k, g)) >= 0                  \* counter-clockwise
=============================================================================
