------------------------------ MODULE Geometry ------------------------------
(* Brushes as intersections of half-spaces, in exact integer arithmetic.     *)
(*                                                                           *)
(* A plane is [n |-> <<a,b,c>>, d |-> D] with primitive integer normal n     *)
(* pointing out of the solid: the solid is where n.x <= d for every plane.   *)
(* A point is homogeneous <<X,Y,Z,W>>, W > 0, gcd 1.                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Trig

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Scale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
DivV(a, k) == <<a[1] \div k, a[2] \div k, a[3] \div k>>
Zero3 == <<0, 0, 0>>
SumV(seq) == FoldLeft(Add, Zero3, seq)

\* rounded division by a positive number
RDiv(a, k) == (a + (k \div 2)) \div k

RECURSIVE SqrtStep(_, _)
SqrtStep(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtStep(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE SqrtStep(n, IF n > 46340 THEN 46340 ELSE n)

----------------------------------------------------------------------------
(* Planes                                                                    *)
\* three points in clockwise order seen from outside
PlaneOf(p) ==
  LET n == Cross(Sub(p[3], p[1]), Sub(p[2], p[1]))
      g == Gcd(Gcd(n[1], n[2]), n[3])
  IN IF g = 0 THEN [ok |-> FALSE, n |-> Zero3, d |-> 0]
     ELSE LET m == <<n[1] \div g, n[2] \div g, n[3] \div g>>
          IN [ok |-> TRUE, n |-> m, d |-> Dot(m, p[1])]

Homog(x, w) ==
  LET g0 == Gcd(Gcd(x[1], x[2]), Gcd(x[3], w))
      g == IF w < 0 THEN -g0 ELSE g0
      q(a) == IF g < 0 THEN (-a) \div (-g) ELSE a \div g
  IN <<q(x[1]), q(x[2]), q(x[3]), q(w)>>

\* corner of three planes, or <<>>
Corner(a, b, c) ==
  LET bc == Cross(b.n, c.n)  w == Dot(a.n, bc)
  IN IF w = 0 THEN <<>>
     ELSE Homog(Add(Scale(a.d, bc), Add(Scale(b.d, Cross(c.n, a.n)), Scale(c.d, Cross(a.n, b.n)))), w)

Excess(p, x) == Dot(p.n, x) - p.d * x[4]          \* > 0: outside
OnPlane(p, x) == Excess(p, x) = 0

Good(planes) == {i \in 1..Len(planes) : planes[i].ok}
Triples(planes) == {t \in Good(planes) \X Good(planes) \X Good(planes) : t[1] < t[2] /\ t[2] < t[3]}
Candidates(planes) ==
  TLCEval({Corner(planes[t[1]], planes[t[2]], planes[t[3]]) : t \in Triples(planes)} \ {<<>>})

\* all corners of the solid
Corners(planes, cand) ==
  {x \in cand : \A i \in Good(planes) : Excess(planes[i], x) <= 0}
\* those on one face
FaceCorners(planes, corners, f) ==
  IF planes[f].ok THEN {x \in corners : OnPlane(planes[f], x)} ELSE {}

----------------------------------------------------------------------------
(* The surface: polygons, edges, winding                                     *)
\* fc[f] = corner set of face f. A proper face has area.
Distinct(planes) == \A i, j \in Good(planes) : (i # j) => planes[i] # planes[j]
Proper(fc) == {f \in 1..Len(fc) : Cardinality(fc[f]) >= 3}

\* order along a direction
Before(t, a, b) == \* Dot(t, a) / a[4] < Dot(t, b) / b[4]
  LET x == Dot(t, a)  y == Dot(t, b)
      p == x \div a[4]  q == y \div b[4]
  IN p < q \/ (p = q /\ (x % a[4]) * b[4] < (y % b[4]) * a[4])

\* directed boundary edges of face f, clockwise seen from outside
FaceEdges(planes, fc, f) ==
  {e \in fc[f] \X fc[f] :
     /\ e[1] # e[2]
     /\ \E g \in Proper(fc) :
          /\ g # f /\ e[1] \in fc[g] /\ e[2] \in fc[g]
          /\ Before(Cross(planes[g].n, planes[f].n), e[1], e[2])}

\* the corners of a face in clockwise order
RECURSIVE Walk(_, _, _)
Walk(edges, seq, n) ==
  IF Len(seq) = n THEN seq
  ELSE LET nx == {e \in edges : e[1] = seq[Len(seq)]}
       IN IF nx = {} THEN seq
          ELSE Walk(edges, Append(seq, (CHOOSE e \in nx : TRUE)[2]), n)
Polygon(edges, corners) ==
  IF corners = {} THEN <<>> ELSE Walk(edges, <<CHOOSE x \in corners : TRUE>>, Cardinality(corners))

\* one turn, every corner once
IsPolygon(edges, corners) ==
  /\ Cardinality(corners) >= 3
  /\ Cardinality(edges) = Cardinality(corners)
  /\ \A x \in corners : /\ Cardinality({e \in edges : e[1] = x}) = 1
                        /\ Cardinality({e \in edges : e[2] = x}) = 1
  /\ ToSet(Polygon(edges, corners)) = corners

\* The solid is bounded with non-empty interior: every proper face is a
\* polygon and the polygons close up.
AllEdges(fe) == UNION {fe[f] : f \in 1..Len(fe)}
Solid(planes, fc, fe) ==
  LET pr == Proper(fc) IN
  /\ pr # {}
  /\ \A f \in pr : IsPolygon(fe[f], fc[f])
  /\ \A f, g \in pr : f # g => fe[f] \cap fe[g] = {}
  /\ \A f \in pr : \A e \in fe[f] : \E g \in pr : g # f /\ <<e[2], e[1]>> \in fe[g]
  /\ 2 * (Cardinality(UNION {fc[f] : f \in pr}) + Cardinality(pr)) - Cardinality(AllEdges(fe)) = 4

\* Everything later stages need about one brush
Shape(planes) ==
  LET cand == Candidates(planes)
      corners == TLCEval(Corners(planes, cand))
      fc == TLCEval([f \in 1..Len(planes) |-> FaceCorners(planes, corners, f)])
      pr == TLCEval(Proper(fc))
      fe == TLCEval([f \in 1..Len(planes) |-> IF f \in pr THEN FaceEdges(planes, fc, f) ELSE {}])
  IN [cand |-> cand, corners |-> corners, fc |-> fc, fe |-> fe,
      poly |-> TLCEval([f \in 1..Len(planes) |-> IF f \in pr THEN Polygon(fe[f], fc[f]) ELSE <<>>]),
      \* a plane written twice bounds the solid once
      solid |-> LET once(k) == ~\E e \in 1..(k - 1) : planes[e] = planes[k]
                    only(s) == TLCEval([i \in 1..Len(planes) |-> IF once(i) THEN s[i] ELSE {}])
                IN IF Distinct(planes) THEN Solid(planes, fc, fe) ELSE Solid(planes, only(fc), only(fe))]

\* A triangle list (triples of corners of one face) covers the polygon exactly
\* once, clockwise.
PosIn(poly, x) == CHOOSE i \in 1..Len(poly) : poly[i] = x
Clockwise(poly, t) ==
  LET a == PosIn(poly, t[1])  b == PosIn(poly, t[2])  c == PosIn(poly, t[3])
  IN (a < b /\ b < c) \/ (b < c /\ c < a) \/ (c < a /\ a < b)
EdgeCount(tris, e) ==
  Cardinality({i \in 1..Len(tris) : <<tris[i][1], tris[i][2]>> = e})
  + Cardinality({i \in 1..Len(tris) : <<tris[i][2], tris[i][3]>> = e})
  + Cardinality({i \in 1..Len(tris) : <<tris[i][3], tris[i][1]>> = e})
CoversOnce(edges, poly, tris) ==
  LET cs == ToSet(poly) IN
  \A e \in cs \X cs : e[1] # e[2] =>
     EdgeCount(tris, e) - EdgeCount(tris, <<e[2], e[1]>>)
       = (IF e \in edges THEN 1 ELSE 0) - (IF <<e[2], e[1]>> \in edges THEN 1 ELSE 0)

----------------------------------------------------------------------------
(* Fixed-point attributes                                                    *)
\* |n| as a ratio l/k with l close to 40000
LenRatio(nn) == LET k == 40000 \div (ISqrt(nn) + 1) + 1 IN <<ISqrt(nn * k * k), k>>
\* unit vector times 10^4
Unit4(n) ==
  LET r == LenRatio(Dot(n, n))
  IN [i \in 1..3 |-> RDiv(n[i] * r[2] * 10000, r[1])]
\* a point in fixed point: scale P, grid gs units per world unit
Fix(x, P, gs) == <<RDiv(x[1] * P, x[4] * gs), RDiv(x[2] * P, x[4] * gs), RDiv(x[3] * P, x[4] * gs)>>

\* projection axis of the standard placement: z first, then y, then x
Axis(n) ==
  LET a == Abs(n[1]) b == Abs(n[2]) c == Abs(n[3]) IN
  IF c >= b /\ c >= a THEN "z" ELSE IF b >= c /\ b >= a THEN "y" ELSE "x"
Facing(n) == CASE Axis(n) = "z" -> Sgn(n[3]) [] Axis(n) = "y" -> -Sgn(n[2]) [] OTHER -> Sgn(n[1])
BaseAxis(n) == IF Axis(n) = "x" THEN <<0, 1, 0>> ELSE <<1, 0, 0>>

\* c * x / k rounded, without large intermediate results
MulRDiv(c, x, k) == c * (x \div k) + RDiv(c * (x % k), k)
\* product with a 10^4 fixed-point factor; exact when the factor is 0 or +-1
Mul4(c, x) == MulRDiv(c, x, 10000)

\* rotation of vector e (10^4 fixed point) about unit normal u (10^4) by whole degrees
Rodrigues(e, u, deg) ==
  LET c == Cos4(deg)  s == Sin4(deg)
      ue == [i \in 1..3 |-> RDiv(Cross(u, e)[i], 10000)]
      d == RDiv(Dot(u, e), 10000)
  IN [i \in 1..3 |-> RDiv(c * e[i], 10000) + RDiv(s * ue[i], 10000)
                     + RDiv(RDiv(u[i] * d, 10000) * (10000 - c), 10000)]
=============================================================================
