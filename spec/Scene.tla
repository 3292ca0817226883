-------------------------------- MODULE Scene --------------------------------
(* What a processed map must look like: from the entities that were read     *)
(* (sequence of [props, brushes]) and the configuration to entity centres,   *)
(* worldspawn layers, the group tree, node data, typed properties, visible   *)
(* surfaces and collision.                                                   *)
(* The configuration cfg is a record                                         *)
(*   tex    : << <<name, width, height>> ... >>     known textures           *)
(*   blb/blp: brush / face blacklists                                        *)
(*   forge  : << [cls, props: << <<name, kind, default>> ..>>] .. >>         *)
(*   defs   : << [cls, kind, et, comp, app, vis, col] .. >>                  *)
(*   layers : << [name, tex, et, comp, vis, col] .. >>                       *)
(* and view is [gs, shift, P, T, Q]: grid units per world unit, origin of    *)
(* the observation, and the fixed-point scales of positions, texels, and     *)
(* texture coordinates.                                                      *)
EXTENDS Text, Geometry

Range1(s) == {s[i] : i \in 1..Len(s)}
FirstIdx(S) == CHOOSE i \in S : \A j \in S : i <= j

PropIdx(e, k) == {i \in 1..Len(e.props) : e.props[i][1] = k}
Has(e, k) == PropIdx(e, k) # {}
Get(e, k) == e.props[FirstIdx(PropIdx(e, k))][2]
Class(e) == Get(e, "classname")

----------------------------------------------------------------------------
(* Order: the worldspawn comes first, the others keep the file order         *)
WsIdx(ents) == CHOOSE i \in 1..Len(ents) : Class(ents[i]) = "worldspawn"
Order(ents) ==
  LET w == WsIdx(ents)
  IN <<w>> \o SelectSeq([i \in 1..Len(ents) |-> i], LAMBDA i : i # w)
PosOf(order, e) == CHOOSE i \in 1..Len(order) : order[i] = e

(* Groups: the parent of an entity. 0 = top level, -1 = nowhere.             *)
Owner(ents, order, g) ==
  LET own == {i \in 1..Len(order) : Has(ents[order[i]], "_tb_id") /\ Get(ents[order[i]], "_tb_id") = g}
  IN IF own = {} THEN -1 ELSE order[FirstIdx(own)]
DirectParent(ents, order, e) ==
  IF e = order[1] THEN 0
  ELSE IF ~Has(ents[e], "_tb_group") THEN 0
  ELSE Owner(ents, order, Get(ents[e], "_tb_group"))
RECURSIVE Reaches(_, _, _)
Reaches(par, e, n) == \* the chain of groups ends at a top-level entity
  IF par[e] = 0 THEN TRUE ELSE IF par[e] = -1 \/ n = 0 THEN FALSE ELSE Reaches(par, par[e], n - 1)
Parents(ents, order) ==
  LET par == TLCEval([e \in 1..Len(ents) |-> DirectParent(ents, order, e)])
  IN TLCEval([e \in 1..Len(ents) |-> IF Reaches(par, e, Len(ents)) THEN par[e] ELSE -1])
Children(par, order, p) == SelectSeq(order, LAMBDA e : par[e] = p)
RECURSIVE Preorder(_, _, _)
Preorder(par, order, p) ==
  FoldLeft(LAMBDA acc, e : acc \o <<e>> \o Preorder(par, order, e), <<>>, Children(par, order, p))

----------------------------------------------------------------------------
(* Definitions                                                               *)
DefOf(cfg, cls) ==
  LET m == {i \in 1..Len(cfg.defs) : cfg.defs[i].cls = cls}
  IN IF m = {} THEN [cls |-> cls, kind |-> "none", et |-> <<"placeholder", "">>, comp |-> <<>>,
                     app |-> "P", vis |-> "none", col |-> "none"]
     ELSE cfg.defs[FirstIdx(m)]
WantsMesh(d) == d.kind = "brush" /\ d.vis = "mesh"
WantsCollision(d) == IF d.kind = "brush" THEN d.col ELSE "none"
NormType(et) == IF et[1] = "placeholder" THEN <<"placeholder", "">> ELSE et

----------------------------------------------------------------------------
(* Properties                                                                *)
Unjudged == <<"?", "">>
Num(m) == m.v
VecOf(s) == \* three leading numbers separated by single spaces, or FALSE
  LET f == SplitOn(s, " ")
  IN Len(f) >= 3 /\ \A i \in 1..3 : IsF32(f[i])
VecVal(s) == LET f == SplitOn(s, " ") IN [i \in 1..3 |-> Milli(f[i])]
TypedValue(kind, dflt, has, val) ==
  CASE kind \in {"I", "H", "L"} -> <<kind, IF has /\ IsI32(val) THEN I32(val) ELSE dflt>>
    [] kind = "F" -> IF has /\ IsF32(val)
                     THEN (IF Milli(val).k = "num" THEN <<"F", Milli(val).v>> ELSE Unjudged)
                     ELSE <<"F", dflt>>
    [] kind \in {"V", "C"} ->
         IF has /\ VecOf(val)
         THEN LET v == VecVal(val) IN
              IF \A i \in 1..3 : v[i].k = "num" THEN <<kind, [i \in 1..3 |-> v[i].v]>> ELSE Unjudged
         ELSE <<kind, dflt>>
    [] kind = "S" -> <<"S", IF has THEN val ELSE dflt>>
    [] OTHER -> <<kind, "">>

ForgeOf(cfg, cls) == {i \in 1..Len(cfg.forge) : cfg.forge[i].cls = cls}
ForgeProps(cfg, cls) ==
  IF ForgeOf(cfg, cls) = {} THEN <<>> ELSE cfg.forge[FirstIdx(ForgeOf(cfg, cls))].props
\* expected property table as a set of <<name, <<kind, value>>>>
PropTable(cfg, e) ==
  LET cls == Class(e)
      fp == ForgeProps(cfg, cls)
      typed == {<<fp[i][1], TypedValue(fp[i][2], fp[i][3], Has(e, fp[i][1]),
                     IF Has(e, fp[i][1]) THEN Get(e, fp[i][1]) ELSE "")>> : i \in 1..Len(fp)}
      own == {fp[i][1] : i \in 1..Len(fp)}
      ints == {<<k, <<"I", I32(Get(e, k))>>>> :
                 k \in {k \in {"_tb_id", "_tb_group"} \ own : Has(e, k) /\ IsI32(Get(e, k))}}
      strs == {<<k, <<"S", Get(e, k)>>>> :
                 k \in {k \in {"_tb_type", "_tb_name"} \ own : Has(e, k)}}
  IN IF ForgeOf(cfg, cls) = {} THEN {} ELSE typed \cup ints \cup strs

----------------------------------------------------------------------------
(* Geometry of one brush                                                     *)
NumsOk(face) == \A a \in 1..3 : \A b \in 1..3 : face.p[a][b].k = "num"
GridOk(face, view) == NumsOk(face) /\ \A a \in 1..3 : \A b \in 1..3 : (face.p[a][b].v * view.gs) % 1000 = 0
GridPoint(face, a, view) ==
  [b \in 1..3 |-> (face.p[a][b].v * view.gs) \div 1000 - view.shift[b] * view.gs]
FacePlane(face, view) == PlaneOf([a \in 1..3 |-> GridPoint(face, a, view)])

\* mean of corners, fixed point
MeanFix(fx) == LET fixes == TLCEval(fx) IN [i \in 1..3 |-> RDiv(FoldLeft(LAMBDA a, f : a + f[i], 0, fixes), Len(fixes))]
FixSeq(cs, P, gs) == LET s == SetToSeq(cs) IN [i \in 1..Len(s) |-> Fix(s[i], P, gs)]

\* eight times the length of a vector, rounded up
Len8(n) == LET q == Dot(n, n)
               m == IF q < 30000000 THEN 64 * q ELSE q
               r == ISqrt(m)  u == IF r * r = m THEN r ELSE r + 1
           IN IF q < 30000000 THEN u ELSE 8 * u
CDiv(a, k) == (a + k - 1) \div k
\* the product of three lengths, rounded up
Prod3(a, b, c) ==
  LET p == CDiv(a * b, 8)
  IN IF p < 60000 THEN CDiv(p * c, 64) ELSE CDiv(p, 8) * CDiv(c, 8)

\* Corners that rounding could move across the tolerance are left unjudged:
\* a candidate outside some plane by less than 1/500 units, planes meeting
\* at a normalised determinant below 1/500, or corners closer than 0.03.
Conditioned(planes, P, gs, tol, cand, corners) ==
  LET l8 == TLCEval([i \in 1..Len(planes) |-> Len8(planes[i].n)]) IN
  /\ \A x \in cand : \A i \in Good(planes) :
        LET e == Excess(planes[i], x)  k == x[4] * gs IN
        e > 0 => (e > 100000 \/ e * 500 > (IF k < 50000 /\ l8[i] < 40000 THEN CDiv(k * l8[i], 8)
                                            ELSE k * CDiv(l8[i], 8)))
  /\ \A t \in Triples(planes) :
        LET w == Abs(Dot(planes[t[1]].n, Cross(planes[t[2]].n, planes[t[3]].n)))
        IN w # 0 => (w > 1000000 \/ w * 500 > Prod3(l8[t[1]], l8[t[2]], l8[t[3]]))
  /\ LET fx == TLCEval([x \in corners |-> Fix(x, P, gs)]) IN
     \A x, y \in corners : x # y => \E i \in 1..3 : 
        /\ Abs(fx[x][i] - fx[y][i]) * 30 > P
        \* and far enough apart to tell which one was observed
        /\ Abs(fx[x][i] - fx[y][i]) > 2 * tol

BrushGeo(brush, view) ==
  LET planes == TLCEval([f \in 1..Len(brush) |->
                   IF GridOk(brush[f], view) THEN FacePlane(brush[f], view)
                   ELSE [ok |-> FALSE, n |-> Zero3, d |-> 0]])
      sh == TLCEval(Shape(planes))
      judged == /\ \A f \in 1..Len(brush) : GridOk(brush[f], view)
                /\ Conditioned(planes, view.P, view.gs, view.tol, sh.cand, sh.corners)
      withC == SelectSeq([f \in 1..Len(brush) |-> f], LAMBDA f : sh.fc[f] # {})
      cent == TLCEval([f \in 1..Len(brush) |->
                 IF sh.fc[f] = {} THEN Zero3 ELSE MeanFix(FixSeq(sh.fc[f], 4 * view.P, view.gs))])
      list == TLCEval(SetToSeq(sh.corners))
      \* a plane written twice is judged when the same points are used
      same == \A i, j \in Good(planes) : planes[i] = planes[j] => brush[i].p = brush[j].p
  IN [planes |-> planes, fc |-> sh.fc, fe |-> sh.fe, poly |-> sh.poly,
      corners |-> list,
      fix |-> TLCEval([i \in 1..Len(list) |-> Fix(list[i], view.P, view.gs)]),
      solid |-> sh.solid, judged |-> judged,
      \* usable: judged, and either a solid or without any corner
      usable |-> judged /\ (sh.corners = {} \/ (sh.solid /\ same)),
      \* centre at scale 4P
      center |-> IF withC = <<>> THEN Zero3 ELSE MeanFix([i \in 1..Len(withC) |-> cent[withC[i]]]),
      empty |-> withC = <<>>]

----------------------------------------------------------------------------
(* Layers                                                                    *)
KnownTex(cfg, t) == \E i \in 1..Len(cfg.tex) : cfg.tex[i][1] = t
TexSize(cfg, t) ==
  LET i == FirstIdx({i \in 1..Len(cfg.tex) : cfg.tex[i][1] = t}) IN <<cfg.tex[i][2], cfg.tex[i][3]>>
LayerTextures == <<"*water0", "*slime0">>
InLayer(cfg, brush, t) == KnownTex(cfg, t) /\ \A f \in 1..Len(brush) : brush[f].tex = t
LayerOf(cfg, brush) ==
  IF \A f \in 1..Len(brush) : FALSE THEN LayerTextures[1]   \* a brush without faces
  ELSE IF InLayer(cfg, brush, LayerTextures[1]) THEN LayerTextures[1]
  ELSE IF InLayer(cfg, brush, LayerTextures[2]) THEN LayerTextures[2] ELSE ""
OwnBrushes(cfg, ents, e) ==
  SelectSeq([b \in 1..Len(ents[e].brushes) |-> b],
            LAMBDA b : Class(ents[e]) # "worldspawn" \/ LayerOf(cfg, ents[e].brushes[b]) = "")
LayerBrushes(cfg, ents, t) ==
  LET w == WsIdx(ents) IN
  SelectSeq([b \in 1..Len(ents[w].brushes) |-> b], LAMBDA b : LayerOf(cfg, ents[w].brushes[b]) = t)
LayerDefs(cfg, t) == {i \in 1..Len(cfg.layers) : cfg.layers[i].tex = t}

----------------------------------------------------------------------------
(* Centres (scale 4P)                                                        *)
OriginComp(f, i) == IF i > Len(f) THEN [k |-> "num", v |-> 0]
                    ELSE IF IsF32(f[i]) THEN Milli(f[i]) ELSE [k |-> "num", v |-> 0]
OriginKey(e) == LET f == SplitOn(Get(e, "origin"), " ") IN [i \in 1..3 |-> OriginComp(f, i)]
OriginJudged(e) == ~Has(e, "origin") \/ \A i \in 1..3 :
   OriginKey(e)[i].k = "num" /\ Abs(OriginKey(e)[i].v) < 4200000
\* milli -> 4P fixed point, relative to the shift
MilliToFix(v, s, P) == ((v \div 1000) - s) * 4 * P + RDiv((v % 1000) * 4 * P, 1000)
Centre(e, geos, view) ==
  IF Has(e, "origin")
  THEN [i \in 1..3 |-> MilliToFix(OriginKey(e)[i].v, view.shift[i], view.P)]
  ELSE IF geos = <<>> THEN [i \in 1..3 |-> -view.shift[i] * 4 * view.P]
  ELSE MeanFix([b \in 1..Len(geos) |->
         IF geos[b].empty THEN [i \in 1..3 |-> -view.shift[i] * 4 * view.P] ELSE geos[b].center])

----------------------------------------------------------------------------
(* Visible faces                                                             *)
Listed(l, t) == \E i \in 1..Len(l) : l[i] = t
BrushShown(cfg, brush) == \E f \in 1..Len(brush) : ~Listed(cfg.blb, brush[f].tex)
FaceShown(cfg, brush, f) == BrushShown(cfg, brush) /\ ~Listed(cfg.blp, brush[f].tex)
SurfaceOf(cfg, face) == IF KnownTex(cfg, face.tex) THEN <<face.tex>> ELSE <<>>

----------------------------------------------------------------------------
(* Vertex attributes of face f of a brush at corner x                        *)
WholeDeg(m) == m.k = "num" /\ m.v % 1000 = 0 /\ Abs(m.v) <= 720000
FaceNormal4(g, f) == Unit4(g.planes[f].n)

ExpColour(face) == face.col   \* <<>> or three Milli numbers

\* base position in texels, scale T: x is a corner; absolute coordinates
AbsTexel(x, i, view) == RDiv(x[i] * view.T, x[4] * view.gs) + view.shift[i] * view.T
UvJudged(face) ==
  /\ \A i \in 1..Len(face.uv) : face.uv[i].k = "num" /\ Abs(face.uv[i].v) <= IF face.uvk = "std" \/ i \in {4, 8} THEN 300000 ELSE 5000
  /\ face.sc[1].k = "num" /\ face.sc[2].k = "num"
  /\ Abs(face.sc[1].v) >= 100 /\ Abs(face.sc[2].v) >= 100
  /\ Abs(face.sc[1].v) <= 20000 /\ Abs(face.sc[2].v) <= 20000
  /\ face.uvk = "std" => WholeDeg(face.rot)
\* signed rounded division by any non-zero number
SDiv(a, k) == IF k < 0 THEN RDiv(-a, -k) ELSE RDiv(a, k)
\* a * m / d rounded, with small intermediate results
MulDiv(a, m, d) ==
  LET g == Gcd(m, d)  k == Abs(d) \div g
      b == IF d < 0 THEN -a ELSE a
      q == b \div k   r == b % k
  IN q * (m \div g) + RDiv(r * (m \div g), k)
ExpUv(face, n, x, size, view) ==
  LET p(i) == AbsTexel(x, i, view)
      ax == Axis(n)
      a == IF ax = "x" THEN p(2) ELSE p(1)
      b == IF ax = "z" THEN -p(2) ELSE -p(3)
      deg == face.rot.v \div 1000
      std == <<Mul4(Cos4(deg), a) - Mul4(Sin4(deg), b), Mul4(Sin4(deg), a) + Mul4(Cos4(deg), b)>>
      along(i) == MulRDiv(face.uv[i].v, p(1), 1000) + MulRDiv(face.uv[i + 1].v, p(2), 1000)
                  + MulRDiv(face.uv[i + 2].v, p(3), 1000)
      val == <<along(1), along(5)>>
      base == IF face.uvk = "std" THEN std ELSE val
      off == IF face.uvk = "std" THEN <<face.uv[1].v, face.uv[2].v>> ELSE <<face.uv[4].v, face.uv[8].v>>
      m == (view.Q * 1000) \div view.T
  IN [i \in 1..2 |-> MulDiv(base[i], m, size[i] * face.sc[i].v) + RDiv(off[i] * view.Q, 1000 * size[i])]
\* allowed deviation: about 1/32 texel plus rounding, and the precision of
\* the sines far from the origin
UvTol(face, x, size, view) ==
  LET far == IF face.uvk = "std" /\ face.rot.v % 90000 # 0
             THEN (Abs(AbsTexel(x, 1, view)) + Abs(AbsTexel(x, 2, view)) + Abs(AbsTexel(x, 3, view))) \div 10000
             ELSE 0
      m == (view.Q * 1000) \div view.T
  IN [i \in 1..2 |-> 3 + (view.Q * 1000 * view.uvtol) \div (32 * size[i] * Abs(face.sc[i].v))
                       + MulDiv(far, m, size[i] * Abs(face.sc[i].v))]

\* smoothing
Phong(e) == Has(e, "_phong") /\ Get(e, "_phong") = "1"
AngleLimited(e) == Has(e, "_phong_angle") /\ IsF32(Get(e, "_phong_angle"))
AngleJudged(e) == ~AngleLimited(e) \/
   LET m == Milli(Get(e, "_phong_angle")) IN m.k = "num" /\ (m.v <= 179000 \/ m.v >= 180000)
\* no face deviates by less than nothing or by more than half a turn
Threshold6(e) ==
  LET v == Milli(Get(e, "_phong_angle")).v IN
  IF v >= 180000 THEN -1000100 ELSE SlackCos6(Max2(v, 0))
\* 10^6 times the cosine between two normals
Cos6(a, b) ==
  LET q == Dot(a, a) * Dot(b, b)
      k == 44000 \div (ISqrt(q) + 1) + 1
      l == ISqrt(q * k * k)
      m == Abs(Dot(a, b)) * k * 10000
      c == (m \div l) * 100 + ((m % l) * 100) \div l
      \* the root lies between l and l + 1
      r == q * k * k - l * l
  IN Sgn(Dot(a, b)) * (c - ((c \div 1000) * r) \div (2 * l * (l \div 1000)))
SmallNormal(n) == Dot(n, n) <= 150
Meeting(g, f, x) == {h \in 1..Len(g.planes) : h # f /\ g.planes[h].ok /\ OnPlane(g.planes[h], x)}
\* every face meeting at the corner has area, and the angle is not borderline
NormalJudged(e, g, f, x) ==
  ~Phong(e) \/
  /\ AngleJudged(e)
  /\ \A h \in Meeting(g, f, x) : Cardinality(g.fc[h]) >= 3 /\ \A i \in Meeting(g, f, x) \cup {f} : i # h => g.planes[i] # g.planes[h]
  /\ AngleLimited(e) =>
       LET t == Threshold6(e) IN
       \A h \in Meeting(g, f, x) :
          /\ SmallNormal(g.planes[f].n) /\ SmallNormal(g.planes[h].n)
          /\ Abs(Cos6(g.planes[f].n, g.planes[h].n) - t) > 20
ExpNormal(e, g, f, x) ==
  IF ~Phong(e) THEN FaceNormal4(g, f)
  ELSE LET lim == AngleLimited(e)
           a == IF lim THEN Threshold6(e) ELSE 0
           use == {h \in Meeting(g, f, x) :
                     lim => Cos6(g.planes[f].n, g.planes[h].n) > a}
           s == SumV([i \in 1..Cardinality(use) |-> Unit4(g.planes[SetToSeq(use)[i]].n)])
           t == Add(s, Unit4(g.planes[f].n))
           big == Max2(Abs(t[1]), Max2(Abs(t[2]), Abs(t[3])))
           d == IF big > 20000 THEN 4 ELSE 1
           t2 == <<RDiv(t[1], d), RDiv(t[2], d), RDiv(t[3], d)>>
       IN IF big < 500 THEN <<>> ELSE LET l == ISqrt(Dot(t2, t2)) IN [i \in 1..3 |-> RDiv(t2[i] * 10000, l)]

\* tangents: <<x, y, z, handedness>> at scale 10^4, or <<>> when not judged
ExpTangent(face, n) ==
  IF face.uvk = "std"
  THEN IF ~WholeDeg(face.rot) \/ face.sc[2].k # "num" \/ face.sc[2].v = 0 THEN <<>>
       ELSE LET t == Rodrigues(Scale(10000, BaseAxis(n)), Unit4(n), -(face.rot.v \div 1000) * Facing(n))
            IN t \o <<Facing(n) * Sgn(face.sc[2].v)>>
  ELSE IF \E i \in 1..8 : face.uv[i].k # "num" \/ (i \notin {4, 8} /\ Abs(face.uv[i].v) > 5000) THEN <<>>
       ELSE LET u == <<face.uv[1].v, face.uv[2].v, face.uv[3].v>>
                v == <<face.uv[5].v, face.uv[6].v, face.uv[7].v>>
                big == Max2(Abs(n[1]), Max2(Abs(n[2]), Abs(n[3])))
                \* triple product, coarse enough not to overflow
                c == DivV(Cross(n, u), IF big > 40 THEN 1000 ELSE 10)
                h == Dot(c, v)
                \* not judged when the three vectors are (nearly) coplanar
            IN IF big > 4000 \/ Abs(h) <= 2 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3])) THEN <<>>
               ELSE <<u[1] * 10, u[2] * 10, u[3] * 10, -Sgn(h)>>
=============================================================================
