----------------------------- MODULE JudgeScene -----------------------------
(* Conformance of recorded runs of the real code with the specification.     *)
(*                                                                           *)
(* Each case holds the lines of a map file, the configuration and the scene  *)
(* the real code produced. The behaviour for a case reads the file line by   *)
(* line with the reader of MapParser, then builds the expected scene, then   *)
(* compares. The verdict lists every deviation with the property it breaks.  *)
EXTENDS MapParser, Scene, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Pid == IOEnv.PID

VARIABLES c,      \* case
          pc,     \* "read", "scene", "judge", "done"
          ln,     \* lines read
          geo,    \* geo[e][b]
          tree,   \* parents, preorder, ...
          verdict

vars == <<c, pc, ln, scope, ents, geo, tree, verdict>>

Case == Cases[c]
Cfg == Case.cfg
View == Case.view
Obs == Case.obs

Init == /\ c \in 1..Len(Cases)
        /\ pc = "read" /\ ln = 0 /\ geo = <<>> /\ tree = <<>> /\ verdict = <<>>
        /\ ParserInit

\* Several lines are read in one step (the reader itself is explored line by
\* line in MCParser).
ReadStep ==
  /\ pc = "read" /\ ln < Len(Case.lines)
  /\ ReadLine(Classify(Case.lines[ln + 1]))
  /\ ln' = ln + 1
  /\ UNCHANGED <<c, pc, geo, tree, verdict>>

ReadEnd ==
  /\ pc = "read" /\ (ln = Len(Case.lines) \/ scope = "reject")
  /\ pc' = IF Accepted /\ Obs.st = "ok" /\ Case.detail = "full" THEN "scene" ELSE "judge"
  /\ UNCHANGED <<c, ln, scope, ents, geo, tree, verdict>>

\* A line no action can read would be a hole in the reader
Stuck == pc = "read" /\ ln < Len(Case.lines) /\ scope # "reject"
         /\ ~ENABLED ReadLine(Classify(Case.lines[ln + 1]))

BuildScene ==
  /\ pc = "scene" /\ Len(geo) < Len(ents)
  /\ LET e == Len(geo) + 1 IN
     geo' = Append(geo, [b \in 1..Len(ents[e].brushes) |-> BrushGeo(ents[e].brushes[b], View)])
  /\ UNCHANGED <<c, pc, ln, scope, ents, tree, verdict>>

BuildTree ==
  /\ pc = "scene" /\ Len(geo) = Len(ents)
  /\ tree' = LET order == TLCEval(Order(ents))  par == TLCEval(Parents(ents, order)) IN
             [order |-> order, par |-> par, pre |-> TLCEval(Preorder(par, order, 0)),
              centre |-> TLCEval([e \in 1..Len(ents) |-> Centre(ents[e], geo[e], View)])]
  /\ pc' = "judge"
  /\ UNCHANGED <<c, ln, scope, ents, geo, verdict>>

----------------------------------------------------------------------------
(* Deviations: records [t |-> tag, at |-> where]                             *)
Dev(t, at) == [t |-> t, at |-> ToString(at)]
If(cond, t, at) == IF cond THEN {Dev(t, at)} ELSE {}

Nodes == Obs.nodes
NodeIds == 1..Len(Nodes)
Kids(p) == {i \in NodeIds : Nodes[i].par = p}
Actors == {i \in NodeIds : Nodes[i].k = "actor"}

\* fixed-point comparison; view.tol is the tolerance for corners at scale P,
\* view.ctol that for centres, which are sums of corners
Bad(x) == x > 2000000000
NonFin(x) == x \in {2000000001, 2000000002}
NonFinV(v) == NonFin(v[1]) \/ NonFin(v[2]) \/ NonFin(v[3])
BadV(v) == Bad(v[1]) \/ Bad(v[2]) \/ Bad(v[3])
NearP(exp4, got) == \* expected at scale 4P
  ~BadV(got) /\ \A i \in 1..3 : Abs(exp4[i] - 4 * got[i]) <= 4 * View.ctol + 4
NearV(exp, got, tol) == ~BadV(got) /\ \A i \in 1..3 : Abs(exp[i] - got[i]) <= tol

----------------------------------------------------------------------------
(* Matching observed actors to entities and layers                           *)
LayerNames == {Cfg.layers[i].name : i \in 1..Len(Cfg.layers)}
EntKey(e) == LET t == PropTable(Cfg, ents[e])
                 q == {p \in t : p[1] = "qid"}
             IN <<Class(ents[e]), IF q = {} THEN "" ELSE ToString((CHOOSE p \in q : TRUE)[2][2])>>
ObsKey(i) == LET q == {p \in Range1(Nodes[i].props) : p[1] = "qid"}
             IN <<Nodes[i].name, IF q = {} THEN "" ELSE ToString((CHOOSE p \in q : TRUE)[2][2])>>
IsLayerNode(i) == Nodes[i].name \in LayerNames
                  /\ \A e \in 1..Len(ents) : Class(ents[e]) # Nodes[i].name
ObsActors == SelectSeq([i \in NodeIds |-> i], LAMBDA i : Nodes[i].k = "actor" /\ ~IsLayerNode(i))
ObsLayers == SelectSeq([i \in NodeIds |-> i], LAMBDA i : Nodes[i].k = "actor" /\ IsLayerNode(i))
\* n-th entity of a key (tree order) is the n-th observed actor of that key
Matching ==
  LET pre == tree.pre
      acts == TLCEval(ObsActors)
      ek == TLCEval([n \in 1..Len(pre) |-> EntKey(pre[n])])
      ok == TLCEval([n \in 1..Len(acts) |-> ObsKey(acts[n])])
      rank(s, n) == Cardinality({m \in 1..n : s[m] = s[n]})
      find(n) == {m \in 1..Len(ok) : ok[m] = ek[n] /\ rank(ok, m) = rank(ek, n)}
  IN TLCEval([n \in 1..Len(pre) |-> LET h == find(n) IN IF h = {} THEN 0 ELSE acts[CHOOSE m \in h : TRUE]])

----------------------------------------------------------------------------
(* Surfaces                                                                  *)
\* A surface's faces: sequence of [b, f] pairs; g(b) their geometry.
Triangles(s) == [i \in 1..(Len(s.idx) \div 3) |-> <<s.idx[3*i - 2] + 1, s.idx[3*i - 1] + 1, s.idx[3*i] + 1>>]

\* corners of brush b at an observed position
At(g, pos) == {k \in 1..Len(g.fix) : NearV(g.fix[k], pos, View.tol)}

ArraysOk(s) ==
  LET n == Len(s.v) IN
  /\ Len(s.n) = n /\ Len(s.t) = n
  /\ s.uv # <<>> => Len(s.uv[1]) = n
  /\ s.col # <<>> => Len(s.col[1]) = n
  /\ Len(s.idx) % 3 = 0
  /\ \A i \in 1..Len(s.idx) : s.idx[i] < n

\* The triangle's corners on face bf, or <<>>
OnFace(gs, bf, at, t) ==
  LET b == bf[1]  g == gs[b]
      pick(v) == {k \in at[b][v] : g.corners[k] \in g.fc[bf[2]]}
  IN IF \E j \in 1..3 : pick(t[j]) = {} THEN <<>>
     ELSE LET p == [j \in 1..3 |-> g.corners[CHOOSE k \in pick(t[j]) : TRUE]]
          IN IF p[1] = p[2] \/ p[2] = p[3] \/ p[1] = p[3] THEN <<>> ELSE p

\* the n-th smallest of a set of numbers
Nth(set, n) == CHOOSE i \in set : Cardinality({j \in set : j <= i}) = n

\* for every triangle the face it is counted for, or 0: the first one it fits
\* on clockwise, or else the first one it fits on. Faces of identical brushes
\* take turns.
Homes(gs, faces, at, tris) ==
  LET bs == {faces[i][1] : i \in 1..Len(faces)}
      own == TLCEval([b \in bs |-> {i \in 1..Len(faces) : faces[i][1] = b}])
      near(t) == UNION {IF at[b][t[1]] = {} THEN {} ELSE own[b] : b \in bs}
      fit(t) == {i \in near(t) : OnFace(gs, faces[i], at, t) # <<>>}
      right(t, ft) == {i \in ft : Clockwise(gs[faces[i][1]].poly[faces[i][2]], OnFace(gs, faces[i], at, t))}
      fits == TLCEval([k \in 1..Len(tris) |-> LET ft == fit(tris[k])  r == right(tris[k], ft)
                                               IN IF r # {} THEN r ELSE ft])
      where(k, i) == OnFace(gs, faces[i], at, tris[k])
      turn(k) == LET i == FirstIdx(fits[k])
                     rank == Cardinality({m \in 1..k : fits[m] = fits[k] /\ where(m, i) = where(k, i)})
                 IN Nth(fits[k], 1 + ((rank - 1) % Cardinality(fits[k])))
  IN TLCEval([k \in 1..Len(tris) |-> IF fits[k] = {} THEN 0
                                      ELSE IF Cardinality(fits[k]) = 1 THEN FirstIdx(fits[k])
                                      ELSE turn(k)])

\* deviations of one vertex v of a surface as corner x of face f
VertexDevs(e, ent, g, face, f, x, s, v, where) ==
  LET n4 == IF NormalJudged(ent, g, f, x) THEN ExpNormal(ent, g, f, x) ELSE <<>>
      tg == ExpTangent(face, g.planes[f].n)
      ot == s.t[v]
  IN (IF n4 = <<>> THEN {} ELSE If(~NearV(n4, s.n[v], 40), "normal", where))
     \cup (IF tg = <<>> THEN {}
           ELSE If(~NearV(<<tg[1], tg[2], tg[3]>>, <<ot[1], ot[2], ot[3]>>, 40), "tangent", where)
                \cup If(tg[4] # ot[4], "hand", where))
     \cup (IF s.uv = <<>> \/ ~KnownTex(Cfg, face.tex) \/ ~UvJudged(face) THEN {}
           ELSE LET size == TexSize(Cfg, face.tex)
                    u == ExpUv(face, g.planes[f].n, x, size, View)
                    tol == UvTol(face, x, size, View)
                IN If(\E i \in 1..2 : Bad(s.uv[1][v][i]) \/ Abs(u[i] - s.uv[1][v][i]) > tol[i], "uv", where))
     \cup (IF s.col = <<>> THEN {}
           ELSE If(face.col # <<>> /\ \E i \in 1..3 : face.col[i].k = "num"
                      /\ Abs(face.col[i].v - s.col[1][v][i]) > 1, "color", where))

NonFinite(s) == \/ \E i \in 1..Len(s.v) : NonFinV(s.v[i])
                \/ \E i \in 1..Len(s.n) : NonFinV(s.n[i])
                \/ \E i \in 1..Len(s.t) : NonFinV(s.t[i])
                \/ s.uv # <<>> /\ \E i \in 1..Len(s.uv[1]) : NonFin(s.uv[1][i][1]) \/ NonFin(s.uv[1][i][2])

SurfaceDevs(e, ent, gs, brushes, faces, s, where) ==
  \* gs: geometry per brush; faces: the <<b, f>> shown on this surface
  IF ~ArraysOk(s) THEN {Dev("arrays", where)}
  ELSE
  LET bs == {faces[i][1] : i \in 1..Len(faces)}
      at == TLCEval([b \in bs |-> TLCEval([v \in 1..Len(s.v) |-> At(gs[b], s.v[v])])])
      tris == TLCEval(Triangles(s))
      home == Homes(gs, faces, at, tris)
      vs == TLCEval([b \in bs |-> {v \in 1..Len(s.v) : at[b][v] # {}}])
      mine == TLCEval([i \in 1..Len(faces) |-> SelectSeq([k \in 1..Len(tris) |-> k], LAMBDA k : home[k] = i)])
      colours == \A i \in 1..Len(faces) : brushes[faces[i][1]][faces[i][2]].col # <<>>
      nocolours == \A i \in 1..Len(faces) : brushes[faces[i][1]][faces[i][2]].col = <<>>
      known == \A i \in 1..Len(faces) : KnownTex(Cfg, brushes[faces[i][1]][faces[i][2]].tex)
  IN If(\E k \in 1..Len(tris) : home[k] = 0, "stray", where)
     \cup If(\E v \in 1..Len(s.v) : \A b \in bs :
               \A k \in at[b][v] : \A i \in 1..Len(faces) :
                  faces[i][1] = b => gs[b].corners[k] \notin gs[b].fc[faces[i][2]], "corner_extra", where)
     \cup UNION {LET b == faces[i][1]  f == faces[i][2]  g == gs[b]
                     here == <<where, b, f>>
                     ts == TLCEval([j \in 1..Len(mine[i]) |-> OnFace(gs, faces[i], at, tris[mine[i][j]])])
                     n == Cardinality(g.fc[f])
                     hit == {x \in g.fc[f] : \E v \in vs[b] :
                               \E k \in at[b][v] : g.corners[k] = x}
                 IN If(hit # g.fc[f], "corner_missing", here)
                    \cup If(n >= 3 /\ ts = <<>>, "face_missing", here)
                    \cup If(n >= 3 /\ ts # <<>> /\ Len(ts) # n - 2, "tri_count", here)
                    \cup If(\E j \in 1..Len(ts) : ~Clockwise(g.poly[f], ts[j]), "winding", here)
                    \cup If(n >= 3 /\ ts # <<>> /\ ~CoversOnce(g.fe[f], g.poly[f], ts), "cover", here)
                    \cup UNION {UNION {VertexDevs(e, ent, g, brushes[b][f], f, ts[j][m], s,
                                                  tris[mine[i][j]][m], here)
                                       : m \in 1..3} : j \in 1..Len(ts)}
                 : i \in 1..Len(faces)}
     \cup If(Case.single /\ Len(faces) = 1 /\ Len(s.v) # Cardinality(gs[faces[1][1]].fc[faces[1][2]]),
             "corner_count", where)
     \cup If(colours # (s.col # <<>>), "color_presence", where)
     \cup If(known # (s.uv # <<>>), "uv_presence", where)
     \* two equal vertices of one brush; colours that are not shown still tell
     \* vertices apart
     \cup If(~Case.touching /\ (colours \/ nocolours) /\ s.dup # <<>>, "dup", where)
     \cup If(NonFinite(s), "nonfinite", where)

Usable(gs, bseq) == \A i \in 1..Len(bseq) : gs[bseq[i]].usable

\* visual geometry of an entity (bseq: its own brushes) or layer
FacesOn(ents_e, gs, bseq, tex, layer) ==
  LET pairs == FoldLeft(LAMBDA acc, b : acc \o [f \in 1..Len(ents_e.brushes[b]) |-> <<b, f>>], <<>>, bseq)
  IN SelectSeq(pairs, LAMBDA p :
       LET face == ents_e.brushes[p[1]][p[2]] IN
       /\ gs[p[1]].fc[p[2]] # {}
       /\ SurfaceOf(Cfg, face) = tex
       /\ (layer \/ FaceShown(Cfg, ents_e.brushes[p[1]], p[2])))
TexSet(ents_e, gs, bseq, layer) ==
  {t \in {<<Cfg.tex[i][1]>> : i \in 1..Len(Cfg.tex)} \cup {<<>>} : FacesOn(ents_e, gs, bseq, t, layer) # <<>>}

VisualDevs(e, ent, gs, bseq, node, layer, where) ==
  LET exp == TexSet(ent, gs, bseq, layer)
      surfs == Nodes[node].surfs
      got == {surfs[i].tex : i \in 1..Len(surfs)}
  IN If(exp \ got # {}, "surf_missing", <<where, exp \ got>>)
     \cup If(got \ exp # {}, "surf_extra", <<where, got \ exp>>)
     \cup If(Cardinality(got) # Len(surfs), "surf_dup", where)
     \cup UNION {IF surfs[i].tex \in exp
                 THEN SurfaceDevs(e, ent, gs, ent.brushes, FacesOn(ent, gs, bseq, surfs[i].tex, layer),
                                  surfs[i], <<where, surfs[i].tex>>)
                 ELSE {} : i \in 1..Len(surfs)}

----------------------------------------------------------------------------
(* Collision                                                                 *)
ConvexDevs(gs, bseq, node, where) ==
  LET sh == Nodes[node].shapes IN
  IF Len(sh) # Len(bseq) THEN {Dev("cx_count", where)}
  ELSE UNION {LET g == gs[bseq[i]]  here == <<where, bseq[i]>> IN
        If(~g.empty /\ ~NearP(g.center, sh[i].c), "cx_center", here)
        \cup If(\E p \in 1..Len(sh[i].v) : At(g, sh[i].v[p]) = {}, "cx_extra", here)
        \cup If(\E k \in 1..Len(g.fix) : \A p \in 1..Len(sh[i].v) : k \notin At(g, sh[i].v[p]),
                "cx_missing", here)
        \cup If(sh[i].dup # <<>>, "cx_dup", here)
        : i \in 1..Len(bseq)}

\* centre = <<>>: not judged
ConcaveDevs(ent, gs, bseq, node, centre, zero, where) ==
  LET sh == Nodes[node].shapes IN
  IF Len(sh) # 1 THEN {Dev("cc_shape", where)}
  ELSE LET s == sh[1]  n == Len(s.v) IN
  IF Len(s.idx) % 3 # 0 \/ \E i \in 1..Len(s.idx) : s.idx[i] >= n
  THEN {Dev("cc_index", where)}
  ELSE
  LET faces == FoldLeft(LAMBDA acc, b : acc \o SelectSeq([f \in 1..Len(ent.brushes[b]) |-> <<b, f>>],
                             LAMBDA p : gs[p[1]].fc[p[2]] # {}), <<>>, bseq)
      bs == {faces[i][1] : i \in 1..Len(faces)}
      at == TLCEval([b \in bs |-> TLCEval([v \in 1..n |-> At(gs[b], s.v[v])])])
      tris == TLCEval(Triangles(s))
      home == Homes(gs, faces, at, tris)
      mine(i) == SelectSeq([k \in 1..Len(tris) |-> k], LAMBDA k : home[k] = i)
  IN If(IF zero THEN ~s.zero ELSE centre # <<>> /\ ~NearP(centre, s.c), "cc_center", where)
     \cup If(\E k \in 1..Len(tris) : home[k] = 0, "cc_stray", where)
     \cup If(\E v \in 1..n : \A b \in bs : at[b][v] = {}, "cc_stray", where)
     \cup If(~Case.touching /\ s.dup # <<>>, "cc_dup", where)
     \cup UNION {LET b == faces[i][1]  f == faces[i][2]  g == gs[b]
                     m == mine(i)
                     ts == TLCEval([j \in 1..Len(m) |-> OnFace(gs, faces[i], at, tris[m[j]])])
                     k == Cardinality(g.fc[f])
                 IN IF k < 3 THEN {}
                    ELSE If(Len(ts) # k - 2 \/ (\E j \in 1..Len(ts) : ~Clockwise(g.poly[f], ts[j]))
                            \/ ~CoversOnce(g.fe[f], g.poly[f], ts), "cc_face", <<where, b, f>>)
                 : i \in 1..Len(faces)}

AnyCorner(gs, bseq) == \E i \in 1..Len(bseq) : ~gs[bseq[i]].empty

CollisionDevs(want, ent, gs, bseq, kids, centre, zero, where) ==
  LET cols == SelectSeq([i \in NodeIds |-> i], LAMBDA i : i \in kids /\ Nodes[i].k = "col")
      exp == CASE want = "convex" -> bseq # <<>>
               [] want = "concave" -> AnyCorner(gs, bseq)
               [] OTHER -> FALSE
      sfx == IF want = "convex" THEN "_convex" ELSE IF want = "concave" THEN "_concave" ELSE ""
  IN IF Len(cols) > 1 THEN {Dev("col_dup", where)}
     ELSE IF cols = <<>> THEN If(exp, "col_missing" \o sfx, where)
     ELSE IF ~exp THEN {Dev("col_extra" \o sfx, where)}
     ELSE IF Nodes[cols[1]].ck # want THEN {Dev("col_kind", where)}
     ELSE IF want = "convex" THEN ConvexDevs(gs, bseq, cols[1], where)
     ELSE ConcaveDevs(ent, gs, bseq, cols[1], centre, zero, where)

----------------------------------------------------------------------------
(* Nodes                                                                     *)
GeoNodeKids(i) == {k \in Kids(i) : Nodes[k].k # "actor"}

EntityDevs(e, i) ==
  LET ent == ents[e]
      d == DefOf(Cfg, Class(ent))
      bseq == OwnBrushes(Cfg, ents, e)
      gs == geo[e]
      n == Nodes[i]
      w == <<e, Class(ent)>>
      usable == Usable(gs, bseq)
      vis == SelectSeq([k \in NodeIds |-> k], LAMBDA k : k \in Kids(i) /\ Nodes[k].k = "vis")
      wantVis == WantsMesh(d) /\ TexSet(ent, gs, bseq, FALSE) # {}
      exp == PropTable(Cfg, ent)
      got == Range1(n.props)
      names(t) == {p[1] : p \in t}
      valOf(t, k) == (CHOOSE p \in t : p[1] = k)[2]
      common == names(exp) \cap names(got)
      centreOk == OriginJudged(ent) /\ (Has(ent, "origin") \/ \A b \in 1..Len(gs) : gs[b].usable)
  IN If(n.name # Class(ent), "name", w)
     \cup If(NormType(n.et) # NormType(d.et), "etype", w)
     \cup If(n.comp # d.comp, "comp", w)
     \cup If(n.app # d.app, "app", w)
     \* properties
     \cup If(names(exp) \ names(got) # {}, "prop_missing", <<w, names(exp) \ names(got)>>)
     \cup If(names(got) \ names(exp) # {}, "prop_extra", <<w, names(got) \ names(exp)>>)
     \cup If(Cardinality(names(got)) # Len(n.props), "prop_dup", w)
     \cup UNION {LET x == valOf(exp, k)  y == valOf(got, k) IN
                 IF x = Unjudged THEN {}
                 ELSE If(x[1] # y[1], "prop_kind", <<w, k, x, y>>)
                      \cup (IF x[1] # y[1] THEN {}
                            ELSE If(x[2] # y[2], IF x[1] = "S" THEN "prop_text" ELSE "prop_value", <<w, k, x, y>>))
                 : k \in common}
     \* geometry
     \cup (IF ~usable THEN {}
           ELSE If(Len(vis) > 1, "vis_dup", w)
                \cup If(wantVis /\ vis = <<>>, "vis_missing", w)
                \cup If(~wantVis /\ vis # <<>>, "vis_extra", w)
                \cup (IF wantVis /\ Len(vis) = 1 THEN VisualDevs(e, ent, gs, bseq, vis[1], FALSE, w) ELSE {})
                \cup CollisionDevs(WantsCollision(d), ent, gs, bseq, Kids(i), IF centreOk THEN tree.centre[e] ELSE <<>>, FALSE, w)
                \cup (IF ~centreOk THEN {}
                      ELSE If(\E k \in GeoNodeKids(i) : ~NearP(tree.centre[e], Nodes[k].o), "geo_origin", w)))
     \* origin
     \cup (IF ~centreOk \/ tree.par[e] = -1 THEN {}
           ELSE IF tree.par[e] = 0 THEN If(~NearP(tree.centre[e], n.o), "origin", w)
           ELSE LET p == tree.par[e]
                    pOk == OriginJudged(ents[p]) /\ (Has(ents[p], "origin") \/ \A b \in 1..Len(geo[p]) : geo[p][b].usable)
                IN IF ~pOk THEN {} ELSE
                   If(~NearP(Sub(tree.centre[e], tree.centre[p]), n.o), "child_origin", w))

\* The worldspawn layers that must appear
LayerWanted(t) ==
  LET bseq == LayerBrushes(Cfg, ents, t)
      w == WsIdx(ents)
      l == Cfg.layers[FirstIdx(LayerDefs(Cfg, t))]
  IN /\ Cardinality(LayerDefs(Cfg, t)) = 1
     /\ \/ l.vis = "mesh" /\ TexSet(ents[w], geo[w], bseq, TRUE) # {}
        \/ l.col = "convex" /\ bseq # <<>>
        \/ l.col = "concave" /\ AnyCorner(geo[w], bseq)

LayerDevs ==
  LET w == WsIdx(ents)
      wanted == {t \in Range1(LayerTextures) : LayerWanted(t)}
      name(t) == Cfg.layers[FirstIdx(LayerDefs(Cfg, t))].name
      nodesOf(t) == {i \in Range1(ObsLayers) : Nodes[i].name = name(t)}
      expNames == {name(t) : t \in wanted}
      usable == \A t \in Range1(LayerTextures) : Usable(geo[w], LayerBrushes(Cfg, ents, t))
  IN IF ~usable THEN {}
     ELSE If(\E i \in Range1(ObsLayers) : Nodes[i].name \notin expNames, "layer_extra", "layers")
     \cup If(\E i \in Range1(ObsLayers) : Nodes[i].par # 0, "layer_parent", "layers")
     \* '*slime0' before '*water0'
     \cup If(IF wanted # Range1(LayerTextures) \/ Cardinality(expNames) # 2 THEN FALSE
             ELSE \E i \in nodesOf(LayerTextures[1]), j \in nodesOf(LayerTextures[2]) : i < j, "layer_order", "layers")
     \cup UNION {
        IF Cardinality(nodesOf(t)) # 1 THEN {Dev("layer_missing", t)}
        ELSE LET i == CHOOSE i \in nodesOf(t) : TRUE
                 l == Cfg.layers[FirstIdx(LayerDefs(Cfg, t))]
                 bseq == LayerBrushes(Cfg, ents, t)
                 kids == Kids(i)
                 vis == SelectSeq([k \in NodeIds |-> k], LAMBDA k : k \in kids /\ Nodes[k].k = "vis")
                 wantVis == l.vis = "mesh" /\ TexSet(ents[w], geo[w], bseq, TRUE) # {}
                 devs == (IF wantVis # (Len(vis) = 1) THEN {Dev("layer_vis", t)} ELSE {})
                         \cup (IF wantVis /\ Len(vis) = 1
                               THEN VisualDevs(w, ents[w], geo[w], bseq, vis[1], TRUE, <<"layer", t>>) ELSE {})
                         \cup CollisionDevs(l.col, ents[w], geo[w], bseq, kids, Zero3, TRUE, <<"layer", t>>)
             IN If(NormType(Nodes[i].et) # NormType(l.et) \/ Nodes[i].comp # l.comp, "layer_def", t)
                \cup If(Nodes[i].props # <<>> \/ Nodes[i].app # "P", "layer_def", t)
                \cup If(~Nodes[i].zero \/ \E k \in kids : ~Nodes[k].zero, "layer_origin", t)
                \cup If(\E k \in kids : Nodes[k].k = "actor", "layer_def", t)
                \cup If(\E k1, k2 \in kids : Nodes[k1].k = "col" /\ Nodes[k2].k = "vis" /\ k1 < k2, "order_children", t)
                \cup {[d EXCEPT !.t = "L:" \o d.t] : d \in devs}
        : t \in wanted}

TopOrder == SelectSeq([i \in NodeIds |-> i], LAMBDA i : Nodes[i].par = 0)
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]

TreeDevs ==
  LET match == Matching
      pre == tree.pre
      used == {match[n] : n \in 1..Len(pre)} \ {0}
      nodeOf(e) == LET n == {n \in 1..Len(pre) : pre[n] = e} IN IF n = {} THEN 0 ELSE match[FirstIdx(n)]
      expKids(p) == SelectSeq(Children(tree.par, tree.order, p), LAMBDA e : nodeOf(e) # 0)
      sibs(p) == LET ks == TLCEval(expKids(p)) IN TLCEval([n \in 1..Len(ks) |-> nodeOf(ks[n])])
  IN If(\E n \in 1..Len(pre) : match[n] = 0, "actor_missing",
        {EntKey(pre[n]) : n \in {n \in 1..Len(pre) : match[n] = 0}})
     \cup LET left == TLCEval(Range1(ObsActors) \ used) IN
          If(left # {}, "actor_extra", {Nodes[i].name : i \in left})
     \cup UNION {LET e == pre[n]  p == tree.par[e] IN
                 IF match[n] = 0 THEN {}
                 ELSE If(Nodes[match[n]].par # (IF p = 0 THEN 0 ELSE nodeOf(p)), "parent", EntKey(e))
                 : n \in 1..Len(pre)}
     \* order
     \cup If(Len(Nodes) > 0 /\ nodeOf(tree.order[1]) # 1, "order_first", "top")
     \cup If(~Increasing(sibs(0)), "order_top", "top")
     \cup UNION {If(~Increasing(sibs(pre[n])), "order_siblings", EntKey(pre[n])) : n \in 1..Len(pre)}
     \cup LET ls == TLCEval(Range1(ObsLayers))  top == TLCEval(Range1(TopOrder)) IN
          If(\E i \in ls : Nodes[i].par = 0 /\ \E j \in top : j < i /\ j # 1 /\ j \notin ls, "layer_pos", "top")
     \cup UNION {LET i == match[n] IN
                 IF i = 0 THEN {}
                 ELSE If(\E a, b \in Kids(i) :
                           /\ a < b
                           /\ \/ Nodes[a].k = "actor" /\ Nodes[b].k # "actor"
                              \/ Nodes[a].k = "col" /\ Nodes[b].k = "vis", "order_children", EntKey(pre[n]))
                 : n \in 1..Len(pre)}
     \cup If(\E i \in NodeIds : Nodes[i].k # "actor" /\ Nodes[i].par = 0, "stray_geometry", "top")
     \cup UNION {IF match[n] = 0 THEN {} ELSE EntityDevs(pre[n], match[n]) : n \in 1..Len(pre)}
     \cup LayerDevs

AllNonFinite ==
  If(\E i \in NodeIds : NonFinV(Nodes[i].o), "nonfinite", "origin")
  \cup If(\E i \in NodeIds : Nodes[i].k = "col" /\ \E j \in 1..Len(Nodes[i].shapes) :
        NonFinV(Nodes[i].shapes[j].c) \/ \E k \in 1..Len(Nodes[i].shapes[j].v) : NonFinV(Nodes[i].shapes[j].v[k]),
        "nonfinite", "collision")
  \cup If(\E i \in NodeIds : Nodes[i].k = "vis" /\ \E j \in 1..Len(Nodes[i].surfs) :
        NonFinite(Nodes[i].surfs[j]), "nonfinite", "surface")

Deviations ==
  IF Obs.st \in {"panic", "abort", "hang"} THEN {Dev("crash", Obs.st)}
  ELSE IF ~Accepted THEN If(Obs.st = "ok", "accepts_bad", scope)
  ELSE IF Obs.st = "err" THEN {Dev("rejects_good", "map")}
  ELSE IF Case.detail # "full" THEN {}
  ELSE TreeDevs \cup AllNonFinite

----------------------------------------------------------------------------
(* Which deviation breaks which property                                     *)
Tri == {"stray", "tri_count", "winding", "cover", "face_missing"}
Corn == {"corner_extra", "corner_missing", "corner_count"}
Surf == {"surf_missing", "surf_extra", "surf_dup", "vis_missing", "vis_extra"}
Attr == {"uv", "normal", "tangent", "hand", "color", "uv_presence", "color_presence"}
Cx == {"cx_count", "cx_center", "cx_extra", "cx_missing", "cx_dup", "col_missing_convex", "col_extra_convex"}
Cc == {"cc_shape", "cc_index", "cc_center", "cc_stray", "cc_dup", "cc_face", "col_missing_concave", "col_extra_concave"}
Lay == {"layer_extra", "layer_parent", "layer_missing", "layer_def", "layer_origin", "layer_vis", "layer_pos"}
Every == {"*"}
Breaks ==
  [M01 |-> {"accepts_bad", "rejects_good", "crash"},
   M02 |-> {"rejects_good", "crash", "actor_missing", "actor_extra", "order_top", "prop_missing", "prop_extra",
            "prop_text", "cx_count", "cx_missing", "cx_extra", "cx_dup", "surf_missing", "surf_extra", "surf_dup", "face_missing",
            "stray", "name", "vis_missing", "vis_extra", "col_missing_convex", "col_extra_convex", "corner_missing",
            "corner_extra", "tri_count"},
   M03 |-> {"crash"},
   M04 |-> {"accepts_bad", "rejects_good", "crash", "color", "color_presence", "uv", "tangent", "hand", "surf_missing",
            "surf_extra", "cx_missing", "cx_extra", "face_missing", "stray", "vis_missing", "corner_missing", "corner_extra"},
   G01 |-> {"rejects_good", "crash", "cx_missing", "cx_extra", "nonfinite", "stray", "face_missing", "surf_missing", "surf_extra", "vis_missing"} \cup Corn,
   G02 |-> {"rejects_good", "crash", "cc_face", "cc_stray", "surf_missing", "vis_missing"} \cup Tri,
   G03 |-> {"rejects_good", "crash", "uv", "uv_presence"},
   G04 |-> {"rejects_good", "crash", "normal"},
   G05 |-> {"rejects_good", "crash", "tangent", "hand"},
   G06 |-> Every,
   G07 |-> {"rejects_good", "crash", "origin", "child_origin", "geo_origin", "cx_center", "cc_center"},
   L01 |-> {"rejects_good", "crash", "cx_count", "surf_missing", "surf_extra", "face_missing", "stray", "vis_missing",
            "vis_extra", "col_missing_convex", "col_extra_convex", "col_missing_concave", "col_extra_concave",
            "cc_face", "cc_stray", "cx_missing", "cx_extra"} \cup Lay,
   S01 |-> {"rejects_good", "crash", "actor_missing", "actor_extra", "parent", "origin", "child_origin", "layer_parent", "layer_origin"},
   S02 |-> {"rejects_good", "crash", "order_first", "order_top", "order_siblings", "order_children", "layer_pos", "layer_order", "stray_geometry"},
   S03 |-> {"rejects_good", "crash", "actor_missing", "actor_extra", "name", "etype", "comp", "app", "vis_missing", "vis_extra", "vis_dup",
            "col_dup", "col_kind", "col_missing_convex", "col_missing_concave", "col_extra_convex", "col_extra_concave", "col_extra"},
   S04 |-> {"rejects_good", "crash", "prop_missing", "prop_extra", "prop_dup", "prop_kind", "prop_value", "prop_text"},
   S05 |-> {"rejects_good", "crash", "face_missing", "stray", "corner_extra", "corner_missing", "cc_face", "cx_count", "vis_dup"} \cup Surf \cup Lay,
   S06 |-> {"rejects_good", "crash", "arrays", "dup", "corner_extra", "corner_missing"} \cup Tri \cup Attr,
   S07 |-> {"rejects_good", "crash", "col_kind"} \cup Cx,
   S08 |-> {"rejects_good", "crash", "col_kind"} \cup Cc]

Layered(t) == Len(t) > 2 /\ SubSeq(t, 1, 2) = "L:"
Plain(t) == IF Layered(t) THEN SubSeq(t, 3, Len(t)) ELSE t
Breaking(d) ==
  LET b == Breaks[Pid] IN
  \/ "*" \in b
  \/ Plain(d.t) \in b
  \/ Pid = "L01" /\ Layered(d.t)

Judged == \* did the comparison cover the whole scene?
  Accepted => /\ \A e \in 1..Len(ents) : \A b \in 1..Len(ents[e].brushes) :
                    Obs.st = "ok" /\ Case.detail = "full" => geo[e][b].usable

JudgeStep ==
  /\ pc = "judge"
  /\ verdict' = LET dev == TLCEval(Deviations)
                     broken == TLCEval({d \in dev : Breaking(d)})
                 IN [id |-> Case.id, bad |-> broken, other |-> TLCEval({d.t : d \in dev \ broken}),
                     acc |-> Accepted, judged |-> Judged]
  /\ pc' = "done"
  /\ UNCHANGED <<c, ln, scope, ents, geo, tree>>
  /\ PrintT("@@" \o ToJson(verdict'))

Next == ReadStep \/ ReadEnd \/ BuildScene \/ BuildTree \/ JudgeStep
Spec == Init /\ [][Next]_vars

NotStuck == ~Stuck
=============================================================================
