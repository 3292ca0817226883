------------------------------ MODULE MCSurfaces ------------------------------
(* Where a brush goes and which of its faces are shown: all texture choices  *)
(* on a brush, all sets of known textures and all blacklists. The machine    *)
(* first routes the brush (worldspawn or layer), then hands out its faces to *)
(* the surfaces one by one. Every start state is a conformance case.         *)
EXTENDS Scene, Json

CONSTANTS Textures, Faces, Mode, Emit
\* Mode "layers": Textures over the layer textures, known sets vary;
\* Mode "lists":  known sets and both blacklists vary

VARIABLES cfg, brush, world, step, route, surfs, hidden
vars == <<cfg, brush, world, step, route, surfs, hidden>>

SetSeq(s) == SetToSeq(s)
CfgOf(known, blb, blp) ==
  [tex |-> LET k == SetSeq(known) IN [i \in 1..Len(k) |-> <<k[i], 64, 64>>],
   blb |-> SetSeq(blb), blp |-> SetSeq(blp), forge |-> <<>>, defs |-> <<>>, layers |-> <<>>]

Init ==
  /\ \E k \in SUBSET Textures :
       \E b1 \in (IF Mode = "lists" THEN SUBSET Textures ELSE {{}}) :
         \E b2 \in (IF Mode = "lists" THEN SUBSET Textures ELSE {{}}) :
           cfg = CfgOf(k, b1, b2)
  /\ \E t \in [1..Faces -> Textures] : brush = [f \in 1..Faces |-> [tex |-> t[f]]]
  /\ world \in (IF Mode = "layers" THEN {TRUE, FALSE} ELSE {FALSE})
  /\ step = 0 /\ route = "" /\ surfs = <<>> /\ hidden = {}

\* layer by layer: the first layer whose texture is on all faces takes it
Route ==
  /\ step = 0
  /\ route' = IF ~world THEN "own"
              ELSE IF InLayer(cfg, brush, LayerTextures[1]) THEN LayerTextures[1]
              ELSE IF InLayer(cfg, brush, LayerTextures[2]) THEN LayerTextures[2] ELSE "own"
  /\ step' = 1
  /\ UNCHANGED <<cfg, brush, world, surfs, hidden>>

SurfIdx(t) == {i \in 1..Len(surfs) : surfs[i].tex = t}
Hand ==
  /\ step \in 1..Faces
  /\ LET f == step  t == SurfaceOf(cfg, brush[f]) IN
     IF route = "own" /\ ~FaceShown(cfg, brush, f)
     THEN hidden' = hidden \cup {f} /\ UNCHANGED surfs
     ELSE /\ surfs' = IF SurfIdx(t) = {} THEN Append(surfs, [tex |-> t, faces |-> <<f>>])
                      ELSE [surfs EXCEPT ![FirstIdx(SurfIdx(t))].faces = Append(@, f)]
          /\ UNCHANGED hidden
  /\ step' = step + 1
  /\ UNCHANGED <<cfg, brush, world, route>>

Next == Route \/ Hand
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == step = Faces + 1
Texs == {brush[f].tex : f \in 1..Faces}
\* a brush is in one place only: a layer takes exactly the worldspawn brushes
\* with its texture everywhere, if the texture is known
RoutedRight == step > 0 =>
  /\ route \in {"own", LayerTextures[1], LayerTextures[2]}
  /\ route # "own" <=> /\ world
                       /\ \E t \in {LayerTextures[1], LayerTextures[2]} : Texs = {t} /\ KnownTex(cfg, t)
  /\ route # "own" => Texs = {route}
\* every face is hidden or on one surface, never both or twice
ShownAt(f) == {i \in 1..Len(surfs) : f \in Range1(surfs[i].faces)}
EachFaceOnce == \A f \in 1..(step - 1) :
  /\ Cardinality(ShownAt(f)) = (IF f \in hidden THEN 0 ELSE 1)
  /\ \A i \in ShownAt(f) : surfs[i].tex = SurfaceOf(cfg, brush[f])
OneSurfacePerTexture == \A i, j \in 1..Len(surfs) : surfs[i].tex = surfs[j].tex => i = j
NoRepeats == \A i \in 1..Len(surfs) : Cardinality(Range1(surfs[i].faces)) = Len(surfs[i].faces)
\* hidden exactly when its own texture is listed, or all textures of the brush are
HiddenRight == Done /\ route = "own" =>
  hidden = {f \in 1..Faces : brush[f].tex \in Range1(cfg.blp) \/ Texs \subseteq Range1(cfg.blb)}
LayersShowAll == route # "own" => hidden = {}
Ends == <>Done
EmitCase == Emit /\ step = 0 =>
  PrintT("@@" \o ToJson([t |-> [f \in 1..Faces |-> brush[f].tex], known |-> cfg.tex, blb |-> cfg.blb,
                         blp |-> cfg.blp, world |-> world]))
=============================================================================
