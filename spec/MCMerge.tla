-------------------------------- MODULE MCMerge --------------------------------
EXTENDS Merge
CONSTANTS Attr, Rule, Size
Shapes == CASE Size = 1 -> <<3, 3>> [] Size = 2 -> <<3, 4>> [] OTHER -> <<3, 3, 3>>
\* Shapes: corner counts of the faces
Init == \E fs \in [1..Len(Shapes) -> UNION {[1..n -> Attr] : n \in {Shapes[i] : i \in 1..Len(Shapes)}}] :
          /\ \A i \in 1..Len(Shapes) : Len(fs[i]) = Shapes[i]
          /\ MergeInit([i \in 1..Len(Shapes) |-> Face(fs[i])])
Next == AppendFace \/ StartMerge \/ MergeVertex(Rule)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
\* nothing lost: the merged triangles read exactly as those of the faces
Lossless == Merged => Deref(Result) = Wanted(src)
NoDuplicates == Merged => \A i, j \in 1..Len(Result.v) : Result.v[i] = Result.v[j] => i = j
InRange == Merged => \A i \in 1..Len(Result.idx) : Result.idx[i] \in 1..Len(Result.v)
InTriples == Len(surf.idx) % 3 = 0
AppendOnly == [][pos = 0 => /\ SubSeq(surf'.v, 1, Len(surf.v)) = surf.v
                            /\ SubSeq(surf'.idx, 1, Len(surf.idx)) = surf.idx]_mvars
Ends == <>Merged
=============================================================================
