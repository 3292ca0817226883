------------------------------ MODULE MCGeometry ------------------------------
(* Exhaustive exploration of brush geometry: a box that is cut by planes one *)
(* after the other, in every combination. Each reachable plane set is also   *)
(* a conformance case for the real geometry builder.                         *)
EXTENDS Geometry, Json

CONSTANTS MaxCuts, Emit,
          Big        \* also cut with normals that have components of 2

Half == 8
Box == << [ok |-> TRUE, n |-> <<1, 0, 0>>, d |-> Half], [ok |-> TRUE, n |-> <<-1, 0, 0>>, d |-> Half],
          [ok |-> TRUE, n |-> <<0, 1, 0>>, d |-> Half], [ok |-> TRUE, n |-> <<0, -1, 0>>, d |-> Half],
          [ok |-> TRUE, n |-> <<0, 0, 1>>, d |-> Half], [ok |-> TRUE, n |-> <<0, 0, -1>>, d |-> Half] >>

Vals == -1..1
Small3 == (Vals \X Vals \X Vals) \ {<<0, 0, 0>>}
Long3 == {<<2, 1, 0>>, <<1, 2, 0>>, <<2, -1, 1>>, <<-1, 2, 2>>, <<1, 0, -2>>, <<-2, -1, 0>>, <<2, 2, 1>>, <<1, -2, 1>>}
Axes3 == {b.n : b \in {Box[i] : i \in 1..6}}
Normals == SetToSeq((Small3 \ Axes3) \cup (IF Big THEN Long3 ELSE {}))
Norm1(n) == Abs(n[1]) + Abs(n[2]) + Abs(n[3])
\* through the far corner, well inside, through edges/corners, through the middle
Dists(n) == {Half * Norm1(n), Half * Norm1(n) - 4, Half * (Norm1(n) - 1), Half * (Norm1(n) - 2), 3}

VARIABLES planes, last, sh
vars == <<planes, last, sh>>

Init == planes = Box /\ last = 0 /\ sh = Shape(Box)
Cut(i, d) ==
  /\ i > last
  /\ LET p == Append(planes, [ok |-> TRUE, n |-> Normals[i], d |-> d]) IN
     /\ planes' = p
     /\ sh' = Shape(p)
  /\ last' = i
Next == /\ Len(planes) < 6 + MaxCuts
        /\ \E i \in 1..Len(Normals) : \E d \in Dists(Normals[i]) : Cut(i, d)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* common denominator of the corners, and the corners as integer points
RECURSIVE LcmOf(_)
LcmOf(S) == IF S = {} THEN 1
            ELSE LET x == CHOOSE x \in S : TRUE  r == LcmOf(S \ {x})
                 IN (x \div Gcd(x, r)) * r
Den == LcmOf({x[4] : x \in sh.corners})
Pt(x) == <<x[1] * (Den \div x[4]), x[2] * (Den \div x[4]), x[3] * (Den \div x[4])>>

\* a box cut by planes has interior exactly when the mean of its corners lies
\* strictly inside every plane
Inside ==
  LET k == Cardinality(sh.corners)
      s == SumV([i \in 1..k |-> Pt(SetToSeq(sh.corners)[i])])
  IN k > 0 /\ \A i \in 1..Len(planes) : Dot(planes[i].n, s) < planes[i].d * Den * k
SolidIffInterior == sh.solid <=> Inside

\* Euler's formula, edges used once in each direction
Closed == sh.solid =>
  LET pr == Proper(sh.fc)
      e == UNION {sh.fe[f] : f \in pr}
  IN /\ Cardinality(UNION {sh.fc[f] : f \in pr}) - Cardinality(e) \div 2 + Cardinality(pr) = 2
     /\ \A x \in e : <<x[2], x[1]>> \in e
     /\ \A f \in pr : Cardinality(sh.fe[f]) = Cardinality(sh.fc[f])
     /\ sh.corners = UNION {sh.fc[f] : f \in pr}

\* the combinatorial order is the geometric one: clockwise seen from outside
Wound == sh.solid => \A f \in Proper(sh.fc) :
  LET p == sh.poly[f]  n == Len(p)
      at(i) == Pt(p[((i - 1) % n) + 1])
  IN \A i \in 1..n :
       Dot(planes[f].n, Cross(Sub(at(i + 1), at(i)), Sub(at(i + 2), at(i + 1)))) < 0

\* any three corners of a face in clockwise order determine its plane again
PlaneFromCorners == sh.solid => \A f \in Proper(sh.fc) :
  LET p == sh.poly[f]
      q == PlaneOf(<<Pt(p[1]), Pt(p[2]), Pt(p[3])>>)
  IN q.ok /\ q.n = planes[f].n /\ q.d = planes[f].d * Den

\* fans cover the polygon once from every apex; a fan with a missing, doubled
\* or turned triangle does not
Rot(p, k) == [i \in 1..Len(p) |-> p[((i + k - 2) % Len(p)) + 1]]
Fan(p) == [i \in 1..(Len(p) - 2) |-> <<p[1], p[i + 1], p[i + 2]>>]
FansCover == sh.solid => \A f \in Proper(sh.fc) :
  /\ \A k \in 1..Len(sh.poly[f]) :
       LET t == Fan(Rot(sh.poly[f], k)) IN
       /\ CoversOnce(sh.fe[f], sh.poly[f], t)
       /\ \A i \in 1..Len(t) : Clockwise(sh.poly[f], t[i])
  /\ LET t == Fan(sh.poly[f]) IN
     /\ ~CoversOnce(sh.fe[f], sh.poly[f], Tail(t))
     /\ ~CoversOnce(sh.fe[f], sh.poly[f], Append(t, t[1]))
     /\ ~CoversOnce(sh.fe[f], sh.poly[f], [t EXCEPT ![1] = <<t[1][1], t[1][3], t[1][2]>>])

\* the order in which the faces are written does not matter
OrderIndependent ==
  LET n == Len(planes)
      o == Shape([i \in 1..n |-> planes[n + 1 - i]])
  IN /\ o.corners = sh.corners /\ o.solid = sh.solid
     /\ \A f \in 1..n : o.fc[n + 1 - f] = sh.fc[f] /\ o.fe[n + 1 - f] = sh.fe[f]

\* nor does writing a face twice
RepeatLaw == Len(planes) <= 7 =>
  LET n == Len(planes)
      o == Shape(Append(planes, planes[n]))
  IN /\ o.corners = sh.corners /\ o.solid = sh.solid
     /\ \A f \in 1..n : o.fc[f] = sh.fc[f] /\ o.fe[f] = sh.fe[f]
     /\ o.fc[n + 1] = sh.fc[n] /\ o.fe[n + 1] = sh.fe[n]

\* cutting only ever removes corners beyond the cut, and adds only on it
CutLaw == [][\A x \in sh'.corners : x \in sh.corners \/ OnPlane(planes'[Len(planes')], x)]_vars
KeepLaw == [][\A x \in sh.corners : Excess(planes'[Len(planes')], x) <= 0 => x \in sh'.corners]_vars

EmitCase == Emit /\ sh.solid => PrintT("@@" \o ToJson([p |-> [i \in 1..Len(planes) |-> <<planes[i].n, planes[i].d>>]]))
=============================================================================
