-------------------------------- MODULE MCScene --------------------------------
(* Assembly of the scene tree as a step machine, over every small group      *)
(* graph: entities with or without a group id and a parent group, ids given  *)
(* twice, dangling groups and cycles, worldspawn anywhere in the file.       *)
(*                                                                           *)
(* The machine emits one node per step from a stack of pending entities, the *)
(* way the tree is built. It is compared with the declarative tree of Scene, *)
(* which is what recorded scenes are judged against.                         *)
EXTENDS Scene, Json

CONSTANTS N,          \* entities
          Ids,        \* group ids
          FirstOnly,  \* TRUE: only the first entity with an id owns the group
          Guarded,    \* TRUE: the worldspawn is never taken as a group member
          Emit

Ids0 == Ids \cup {"-"}
Entity(isWs, id, grp) ==
  [props |-> <<<<"classname", IF isWs THEN "worldspawn" ELSE "info">>>>
             \o (IF id = "-" THEN <<>> ELSE <<<<"_tb_id", id>>>>)
             \o (IF grp = "-" THEN <<>> ELSE <<<<"_tb_group", grp>>>>),
   brushes |-> <<>>]

VARIABLES ents,   \* the file
          todo,   \* stack of <<entity, parent>> still to be emitted
          out     \* emitted <<entity, parent>>, in order
vars == <<ents, todo, out>>

ord == Order(ents)
Id(e) == IF Has(ents[e], "_tb_id") THEN Get(ents[e], "_tb_id") ELSE "-"
Grp(e) == IF Has(ents[e], "_tb_group") THEN Get(ents[e], "_tb_group") ELSE "-"
\* does e own its group id?
Owns(e) == /\ Id(e) # "-"
           /\ FirstOnly => \A i \in 1..Len(ord) :
                (Id(ord[i]) = Id(e)) => PosOf(ord, e) <= i
Members(e) ==
  IF ~Owns(e) THEN <<>>
  ELSE SelectSeq(ord, LAMBDA m : Grp(m) = Id(e) /\ (Guarded => m # ord[1]))
Top == SelectSeq(ord, LAMBDA e : e = ord[1] \/ Grp(e) = "-")
Pairs(s, p) == [i \in 1..Len(s) |-> <<s[i], p>>]

Init ==
  /\ \E w \in 1..N :
       \E a \in [1..N -> Ids0 \X Ids0] :
         ents = [e \in 1..N |-> Entity(e = w, a[e][1], a[e][2])]
  /\ todo = Pairs(Top, 0)
  /\ out = <<>>

EmitNode ==
  /\ todo # <<>>
  /\ LET e == Head(todo)[1] IN
     /\ out' = Append(out, Head(todo))
     /\ todo' = Pairs(Members(e), e) \o Tail(todo)
  /\ UNCHANGED ents
Next == EmitNode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Par == Parents(ents, ord)
Emitted == {out[i][1] : i \in 1..Len(out)}

\* no entity twice: also bounds the machine, so it terminates
EachOnce == \A i, j \in 1..Len(out) : out[i][1] = out[j][1] => i = j
ParentFirst == \A i \in 1..Len(out) : out[i][2] # 0 => \E j \in 1..(i - 1) : out[j][1] = out[i][2]
WorldFirst == out # <<>> => out[1] = <<ord[1], 0>>
FileOrder == \* siblings appear in the order of the file
  \A i, j \in 1..Len(out) : i < j /\ out[i][2] = out[j][2] => PosOf(ord, out[i][1]) < PosOf(ord, out[j][1])
\* at the end the machine has built the declarative tree
BuildsTree == todo = <<>> =>
  /\ [i \in 1..Len(out) |-> out[i][1]] = Preorder(Par, ord, 0)
  /\ \A i \in 1..Len(out) : Par[out[i][1]] = out[i][2]
  /\ \A e \in 1..N : Par[e] # -1 <=> e \in Emitted
\* who is left out: exactly those whose chain of groups does not reach the top
RECURSIVE ReachTop(_, _)
ReachTop(e, seen) ==
  \/ e = ord[1] \/ Grp(e) = "-"
  \/ /\ e \notin seen
     /\ LET own == {o \in 1..N : Owns(o) /\ Id(o) = Grp(e)}
        IN own # {} /\ ReachTop(CHOOSE o \in own : TRUE, seen \cup {e})
LeftOut == todo = <<>> => \A e \in 1..N : (e \in Emitted) <=> ReachTop(e, {})
\* summing origins relative to the parent gives the entity's own centre
CentreOf(e) == 10 * e + 3 * e * e
RECURSIVE Sum(_)
Sum(e) == IF Par[e] = 0 THEN CentreOf(e) ELSE (CentreOf(e) - CentreOf(Par[e])) + Sum(Par[e])
OriginsSum == todo = <<>> => \A e \in Emitted : Sum(e) = CentreOf(e)

Bounded == Len(out) <= N
Ends == <>(todo = <<>>)

EmitCase == Emit /\ todo = <<>> =>
  PrintT("@@" \o ToJson([e |-> [e \in 1..N |-> <<Class(ents[e]), Id(e), Grp(e)>>]]))
=============================================================================
