------------------------------- MODULE MCParser -------------------------------
(* Exhaustive exploration of the reader over short line histories, and       *)
(* generation of those histories as conformance tests (every reachable state *)
(* is one file for the real reader).                                         *)
EXTENDS MapParser, Json, FiniteSets

CONSTANTS Depth, Emit, Alphabet

VARIABLE hist       \* line codes read so far
vars == <<scope, ents, hist>>

\* Line alphabets. In "nest", opening an entity also writes its classname line,
\* so that acceptance depends on the nesting only; in "class", the classname
\* lines are codes of their own (W: worldspawn, I: another class).
Codes == CASE Alphabet = "nest" -> {"O", "C", "A", "B", "K", "F", "X", "S"}
           [] Alphabet = "class" -> {"O", "C", "W", "I", "A"}
Face == [ok |-> TRUE]
TokOf(c) ==
  CASE c = "O" -> Tok("open", "", "", NoFace)
    [] c = "C" -> Tok("close", "", "", NoFace)
    [] c = "A" -> Tok("prop", "k1", "a", NoFace)
    [] c = "B" -> Tok("prop", "k1", "b", NoFace)
    [] c = "K" -> Tok("prop", "k2", "a", NoFace)
    [] c = "F" -> Tok("face", "", "", Face)     \* written as the faces of a box
    [] c = "X" -> Tok("face", "", "", NoFace)   \* a malformed face line
    [] c = "W" -> Tok("prop", "classname", "worldspawn", NoFace)
    [] c = "I" -> Tok("prop", "classname", "info", NoFace)
    [] c = "S" -> Tok("skip", "", "", NoFace)

ClassTok == Tok("prop", "classname", IF ents = <<>> THEN "worldspawn" ELSE "info", NoFace)

Init == ParserInit /\ hist = <<>>

OpenWithClass ==
  /\ scope = "file"
  /\ scope' = "entity"
  /\ ents' = Append(ents, [NewEntity EXCEPT !.props = <<<<"classname", ClassTok.val>>>>])

Next == /\ Len(hist) < Depth /\ scope # "reject"
        /\ \E c \in Codes :
             /\ hist' = Append(hist, c)
             /\ IF c = "O" /\ scope = "file" /\ Alphabet = "nest" THEN OpenWithClass ELSE ReadLine(TokOf(c))

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Declarative reading, independent of the machine                           *)
DepthAfter(n) == \* braces open after n lines, or -1 once it went wrong
  FoldLeft(LAMBDA d, c : IF d < 0 THEN d
             ELSE IF c = "O" THEN (IF d = 2 THEN -1 ELSE d + 1)
             ELSE IF c = "C" THEN d - 1
             ELSE d, 0, SubSeq(hist, 1, n))
GoodLine(n) ==
  CASE hist[n] \in {"A", "B", "K", "W", "I"} -> DepthAfter(n - 1) = 1
    [] hist[n] = "F" -> DepthAfter(n - 1) = 2
    [] hist[n] = "X" -> FALSE
    [] hist[n] \in {"O", "C"} -> DepthAfter(n) >= 0
    [] OTHER -> TRUE
WellNested == \A n \in 1..Len(hist) : GoodLine(n)

RejectsExactlyBadNesting == (scope # "reject") <=> WellNested
ScopeIsDepth ==
  WellNested => (DepthAfter(Len(hist)) = CASE scope = "file" -> 0 [] scope = "entity" -> 1
                                           [] scope = "brush" -> 2 [] OTHER -> -1)

EntityOpens == {n \in 1..Len(hist) : hist[n] = "O" /\ DepthAfter(n - 1) = 0 /\ DepthAfter(n) = 1}
BrushOpens == {n \in 1..Len(hist) : hist[n] = "O" /\ DepthAfter(n - 1) = 1 /\ DepthAfter(n) = 2}
Nth(S, k) == CHOOSE n \in S : Cardinality({m \in S : m <= n}) = k
RangeOf(S, k) == Nth(S, k) .. (IF k < Cardinality(S) THEN Nth(S, k + 1) - 1 ELSE Len(hist))

Faithful == WellNested =>
  /\ Len(ents) = Cardinality(EntityOpens)
  /\ \A e \in 1..Len(ents) :
       LET span == RangeOf(EntityOpens, e)
           bo == BrushOpens \cap span
           keyLines(k) == {n \in span : hist[n] \in (IF k = "k1" THEN {"A", "B"} ELSE {"K"})}
       IN /\ Len(ents[e].brushes) = Cardinality(bo)
          /\ \A b \in 1..Len(ents[e].brushes) :
               Len(ents[e].brushes[b]) =
                 Cardinality({n \in span : /\ hist[n] = "F"
                                           /\ \E o \in bo : /\ o < n
                                                            /\ Cardinality({m \in bo : m <= o}) = b
                                                            /\ \A o2 \in bo : o2 < n => o2 <= o})
          /\ \A k \in {"k1", "k2"} :
               IF keyLines(k) = {} THEN ~HasProp(ents[e], k)
               ELSE LET last == CHOOSE n \in keyLines(k) : \A m \in keyLines(k) : m <= n
                    IN HasProp(ents[e], k)
                       /\ GetProp(ents[e], k) = (IF hist[last] = "B" THEN "b" ELSE "a")
          /\ \A i, j \in 1..Len(ents[e].props) :
               ents[e].props[i][1] = ents[e].props[j][1] => i = j

\* Acceptance: well nested, every entity ends up with a classname, and exactly
\* one ends up as the worldspawn
ClassLines(span) == {n \in span : hist[n] \in {"W", "I"}}
FinalClass(e) ==
  LET span == RangeOf(EntityOpens, e)  cl == ClassLines(span) IN
  IF Alphabet = "nest" THEN (IF e = 1 THEN "W" ELSE "I")
  ELSE IF cl = {} THEN "" ELSE hist[CHOOSE n \in cl : \A m \in cl : m <= n]
AcceptedExactly ==
  Accepted <=> /\ WellNested
               /\ \A e \in 1..Cardinality(EntityOpens) : FinalClass(e) # ""
               /\ Cardinality({e \in 1..Cardinality(EntityOpens) : FinalClass(e) = "W"}) = 1

\* finished entities never change; only the last one grows
OnlyLastGrows ==
  [][/\ Len(ents') \in {Len(ents), Len(ents) + 1}
     /\ \A i \in 1..Len(ents) : i < Len(ents') => ents'[i] = ents[i]]_vars
RejectIsFinal == [][scope = "reject" => scope' = "reject"]_vars

EmitState ==
  Emit => PrintT("@@" \o ToJson([h |-> hist, ok |-> Accepted,
     ents |-> [i \in 1..Len(ents) |->
        [p |-> ents[i].props, b |-> [j \in 1..Len(ents[i].brushes) |-> Len(ents[i].brushes[j])]]]]))
=============================================================================
