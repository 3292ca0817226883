------------------------------ MODULE MapParser ------------------------------
(* Reading a .map file: a scope machine that consumes one line per step.     *)
(*                                                                           *)
(* A line is first classified by its first character into a token; the       *)
(* machine then moves between file, entity and brush scope, or rejects.      *)
EXTENDS FaceLine

----------------------------------------------------------------------------
(* Tokens                                                                    *)

Tok(k, key, val, face) == [k |-> k, key |-> key, val |-> val, face |-> face]

Classify(line) ==
  LET c == IF Len(line) = 0 THEN "" ELSE SubSeq(line, 1, 1) IN
  CASE c = "{" -> Tok("open", "", "", NoFace)
    [] c = "}" -> Tok("close", "", "", NoFace)
    [] c = "\"" -> LET q == SplitOn(line, "\"") IN
                   IF Len(q) >= 4 THEN Tok("prop", q[2], q[4], NoFace)
                   ELSE Tok("skip", "", "", NoFace)
    [] c = "(" -> Tok("face", "", "", ParseFace(line))
    [] OTHER -> Tok("skip", "", "", NoFace)

----------------------------------------------------------------------------
(* State: scope in {"file","entity","brush","reject"}, and the entities read *)
(* so far. An entity is [props: sequence of key/value pairs with distinct    *)
(* keys, brushes: sequence of sequences of faces].                           *)
VARIABLES scope, ents

pvars == <<scope, ents>>

NewEntity == [props |-> <<>>, brushes |-> <<>>]

PutProp(props, k, v) ==
  IF \E i \in 1..Len(props) : props[i][1] = k
  THEN [i \in 1..Len(props) |-> IF props[i][1] = k THEN <<k, v>> ELSE props[i]]
  ELSE Append(props, <<k, v>>)

HasProp(e, k) == \E i \in 1..Len(e.props) : e.props[i][1] = k
GetProp(e, k) == e.props[CHOOSE i \in 1..Len(e.props) : e.props[i][1] = k][2]

ParserInit == scope = "file" /\ ents = <<>>

OpenEntity(t) ==
  /\ t.k = "open" /\ scope = "file"
  /\ scope' = "entity" /\ ents' = Append(ents, NewEntity)

OpenBrush(t) ==
  /\ t.k = "open" /\ scope = "entity"
  /\ scope' = "brush"
  /\ ents' = [ents EXCEPT ![Len(ents)].brushes = Append(@, <<>>)]

CloseBrush(t) ==
  /\ t.k = "close" /\ scope = "brush"
  /\ scope' = "entity" /\ UNCHANGED ents

CloseEntity(t) ==
  /\ t.k = "close" /\ scope = "entity"
  /\ scope' = "file" /\ UNCHANGED ents

ReadProperty(t) ==
  /\ t.k = "prop" /\ scope = "entity"
  /\ ents' = [ents EXCEPT ![Len(ents)].props = PutProp(@, t.key, t.val)]
  /\ UNCHANGED scope

ReadFace(t) ==
  /\ t.k = "face" /\ t.face.ok /\ scope = "brush"
  /\ ents' = [ents EXCEPT ![Len(ents)].brushes[Len(ents[Len(ents)].brushes)] = Append(@, t.face)]
  /\ UNCHANGED scope

SkipLine(t) == t.k = "skip" /\ scope # "reject" /\ UNCHANGED pvars

RejectLine(t) ==
  /\ \/ t.k = "open" /\ scope = "brush"
     \/ t.k = "close" /\ scope = "file"
     \/ t.k = "prop" /\ scope # "entity"
     \/ t.k = "face" /\ (scope # "brush" \/ ~t.face.ok)
  /\ scope # "reject"
  /\ scope' = "reject" /\ UNCHANGED ents

ReadLine(t) ==
  \/ OpenEntity(t) \/ OpenBrush(t) \/ CloseBrush(t) \/ CloseEntity(t)
  \/ ReadProperty(t) \/ ReadFace(t) \/ SkipLine(t) \/ RejectLine(t)

----------------------------------------------------------------------------
(* What a file ending in this state means                                    *)
IsWorldspawn(e) == HasProp(e, "classname") /\ GetProp(e, "classname") = "worldspawn"
Accepted ==
  /\ scope # "reject"
  /\ \A i \in 1..Len(ents) : HasProp(ents[i], "classname")
  /\ \E i \in 1..Len(ents) : /\ IsWorldspawn(ents[i])
                             /\ \A j \in 1..Len(ents) : IsWorldspawn(ents[j]) => j = i
=============================================================================
