--------------------------------- MODULE Merge ---------------------------------
(* Building one surface: faces are appended one after the other, each face   *)
(* brings its own vertices and triangle indices; equal vertices of a brush   *)
(* are then merged one by one.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* A face is [v |-> sequence of attributes, idx |-> sequence of 1-based indices]
FanIdx(n) == FoldLeft(LAMBDA a, i : a \o <<1, i + 1, i + 2>>, <<>>, [i \in 1..(n - 2) |-> i])
Face(v) == [v |-> v, idx |-> FanIdx(Len(v))]
Deref(s) == [i \in 1..Len(s.idx) |-> s.v[s.idx[i]]]
Wanted(faces) == FoldLeft(LAMBDA a, f : a \o Deref(f), <<>>, faces)

VARIABLES faces,    \* faces still to be appended
          src,      \* all faces, for reference
          surf,     \* the surface so far [v, idx]
          pos,      \* next vertex to merge
          map       \* where each vertex went

mvars == <<faces, src, surf, pos, map>>

MergeInit(fs) == faces = fs /\ src = fs /\ surf = [v |-> <<>>, idx |-> <<>>] /\ pos = 0 /\ map = <<>>

AppendFace ==
  /\ pos = 0 /\ faces # <<>>
  /\ LET f == Head(faces)  n == Len(surf.v) IN
     surf' = [v |-> surf.v \o f.v, idx |-> surf.idx \o [i \in 1..Len(f.idx) |-> f.idx[i] + n]]
  /\ faces' = Tail(faces)
  /\ UNCHANGED <<src, pos, map>>

StartMerge ==
  /\ pos = 0 /\ faces = <<>>
  /\ pos' = 1 /\ UNCHANGED <<faces, src, surf, map>>

\* kept: attributes of the vertices kept so far
Kept == SelectSeq([i \in 1..Len(map) |-> i], LAMBDA i : \A j \in 1..(i - 1) : map[j] # map[i])
MergeVertex(rule) ==
  /\ pos >= 1 /\ pos <= Len(surf.v)
  /\ LET eq == {i \in 1..(pos - 1) : surf.v[i] = surf.v[pos]}
         first == CHOOSE i \in eq : \A j \in eq : i <= j
         fresh == Len(Kept) + 1
     IN map' = Append(map, IF eq = {} THEN fresh
                           ELSE IF rule = "equal" THEN map[first]
                           ELSE Len(Kept))      \* "last": into the vertex kept last
  /\ pos' = pos + 1
  /\ UNCHANGED <<faces, src, surf>>

Merged == pos = Len(surf.v) + 1 /\ pos > 0
Result == [v |-> [i \in 1..Len(Kept) |-> surf.v[Kept[i]]],
           idx |-> [i \in 1..Len(surf.idx) |-> map[surf.idx[i]]]]
=============================================================================
