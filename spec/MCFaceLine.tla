------------------------------ MODULE MCFaceLine ------------------------------
(* Reading one face line field by field, from every line within a few edits  *)
(* of a well-formed one. The machine below takes the fields from left to     *)
(* right, as a reader of a stream does; FaceLine!ParseFace says by field    *)
(* positions what a line means. Every line reached is also written out and   *)
(* put before the real reader.                                               *)
EXTENDS FaceLine, FiniteSets

CONSTANTS Edits,      \* edits per line
          MaxExtra,   \* trailing numbers of the well-formed and ill-formed bases
          Lenient,    \* negative control: numbers that are not there read as 0
          Emit

\* a base line: its number fields are distinct, so that reading one for
\* another is noticed
Delims(kind) == IF kind = "std" THEN {1, 5, 6, 10, 11, 15} ELSE {1, 5, 6, 10, 11, 15, 17, 22, 23, 28}
Length0(kind) == IF kind = "std" THEN 21 ELSE 31
Base(kind, nx) ==
  [i \in 1..(Length0(kind) + nx) |->
     CASE i \in {1, 6, 11} -> "("
       [] i \in {5, 10, 15} -> ")"
       [] i = 16 -> "t0"
       [] kind = "valve" /\ i \in {17, 23} -> "["
       [] kind = "valve" /\ i \in {22, 28} -> "]"
       [] OTHER -> ToString(100 + i)]
\* what a field may be replaced by, or an inserted one be
Tokens == {"7", "2.5", "x", "(", "[", "nan", "5000000000"}

VARIABLES kind, nx, fields, edits, pc, pos, got
vars == <<kind, nx, fields, edits, pc, pos, got>>

Apply(f, e) ==
  CASE e[1] = "del" -> SubSeq(f, 1, e[2] - 1) \o SubSeq(f, e[2] + 1, Len(f))
    [] e[1] = "put" -> SubSeq(f, 1, e[2] - 1) \o <<e[3]>> \o SubSeq(f, e[2] + 1, Len(f))
    [] e[1] = "ins" -> SubSeq(f, 1, e[2]) \o <<e[3]>> \o SubSeq(f, e[2] + 1, Len(f))
    [] e[1] = "cut" -> SubSeq(f, 1, e[2])
\* the first field makes it a face line and stays
Possible(f) ==
  {<<"del", i, "">> : i \in 2..Len(f)} \cup {<<"cut", i, "">> : i \in 1..(Len(f) - 1)}
  \cup {<<"put", i, t>> : i \in 2..Len(f), t \in Tokens} \cup {<<"ins", i, t>> : i \in 1..Len(f), t \in Tokens}

Init == /\ kind \in {"std", "valve"} /\ nx \in 0..MaxExtra
        /\ fields = Base(kind, nx) /\ edits = <<>>
        /\ pc = "edit" /\ pos = 0 /\ got = [num |-> <<>>, tex |-> "", uvk |-> ""]

Edit == /\ pc = "edit" /\ Len(edits) < Edits
        /\ \E e \in Possible(fields) : fields' = Apply(fields, e) /\ edits' = Append(edits, e)
        /\ UNCHANGED <<kind, nx, pc, pos, got>>

Begin == /\ pc = "edit" /\ pc' = "points" /\ UNCHANGED <<kind, nx, fields, edits, pos, got>>

----------------------------------------------------------------------------
(* The stream reader. Its steps: one point, the texture, the first field of  *)
(* the placement, the numbers of the placement, the rest.                    *)
There(i) == i <= Len(fields)
IsNum(i) == There(i) /\ IsF32(fields[i])
NumAt(i) == IsNum(i) \/ (Lenient /\ ~There(i))
Value(i) == IF There(i) THEN Milli(fields[i]) ELSE [k |-> "num", v |-> 0]
Fail == pc' = "error" /\ UNCHANGED <<kind, nx, fields, edits, pos, got>>
\* numbers at positions pos+skip+1.. with skip fields before and after behind
Take(skip, n, behind, next) ==
  IF \A j \in 1..n : NumAt(pos + skip + j)
  THEN /\ got' = [got EXCEPT !.num = @ \o [j \in 1..n |-> Value(pos + skip + j)]]
       /\ pos' = pos + skip + n + behind
       /\ pc' = next
       /\ UNCHANGED <<kind, nx, fields, edits>>
  ELSE Fail

ReadPoint == pc = "points" /\ Take(1, 3, 1, IF Len(got.num) = 6 THEN "texture" ELSE "points")
ReadTexture ==
  /\ pc = "texture"
  /\ IF There(pos + 1)
     THEN /\ got' = [got EXCEPT !.tex = Lower(fields[pos + 1])]
          /\ pos' = pos + 1 /\ pc' = "placement" /\ UNCHANGED <<kind, nx, fields, edits>>
     ELSE Fail
\* a number begins the standard placement, anything else the one with axes
ReadPlacement ==
  /\ pc = "placement"
  /\ IF ~There(pos + 1) THEN Fail
     ELSE /\ pc' = IF IsNum(pos + 1) THEN "offsets" ELSE "u"
          /\ got' = [got EXCEPT !.uvk = IF IsNum(pos + 1) THEN "std" ELSE "valve"]
          /\ UNCHANGED <<kind, nx, fields, edits, pos>>
ReadOffsets == pc = "offsets" /\ Take(0, 2, 0, "tail")
ReadU == pc = "u" /\ Take(1, 4, 1, "v")
ReadV == pc = "v" /\ Take(1, 4, 1, "tail")
ReadTail == pc = "tail" /\ Take(0, 3, 0, "extra")
ReadExtra ==
  /\ pc = "extra"
  /\ LET n == Len(fields) - pos
         whole == n \in {3, 6} => IsI32(fields[pos + 1]) /\ IsI32(fields[pos + 2])
     IN IF (n \in {0, 1, 3, 6} \/ n < 0) /\ whole /\ \A j \in 1..n : (n \in {3, 6} /\ j <= 2) \/ IsNum(pos + j)
        THEN /\ got' = [got EXCEPT !.num = @ \o [j \in 1..(IF n = 6 THEN 3 ELSE 0) |-> Value(pos + 3 + j)]]
             /\ pc' = "ok" /\ UNCHANGED <<kind, nx, fields, edits, pos>>
        ELSE Fail

Next == Edit \/ Begin \/ ReadPoint \/ ReadTexture \/ ReadPlacement \/ ReadOffsets \/ ReadU \/ ReadV
        \/ ReadTail \/ ReadExtra
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Line == FoldLeft(LAMBDA a, f : IF a = "" THEN f ELSE a \o " " \o f, "", fields)
\* the numbers of a face in the order they are written
Numbers(face) ==
  face.p[1] \o face.p[2] \o face.p[3] \o face.uv \o <<face.rot>> \o face.sc
  \o (IF face.col = <<>> THEN <<>> ELSE face.col)
Agree ==
  pc \in {"ok", "error"} =>
    LET face == ParseFace(Line) IN
    /\ face.ok = (pc = "ok")
    /\ pc = "ok" => face.tex = got.tex /\ face.uvk = got.uvk /\ Numbers(face) = got.num
\* a line without edits is read when it has a permitted number of extras
BaseRead == (pc \in {"ok", "error"} /\ edits = <<>>) => ((pc = "ok") = (nx \in {0, 1, 3, 6}))
\* reading never goes back and takes every field at most once
Forward == [][pos' >= pos /\ (pc' = pc => pc \in {"edit", "points"})]_vars

PrintLine == (Emit /\ pc = "edit") => PrintT("@@" \o ToJson([kind |-> kind, nx |-> nx, edits |-> edits]))
=============================================================================
