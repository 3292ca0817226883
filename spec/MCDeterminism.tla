----------------------------- MODULE MCDeterminism -----------------------------
(* Where runs could differ: tables are hash maps, and every process iterates *)
(* them in an order of its own (its hash seed). Layers come out in that      *)
(* order unless they are sorted; property tables are compared as tables.     *)
EXTENDS Determinism
CONSTANTS Layers, Keys, Ordered, Runs

Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : s[i] = s[j] => i = j}
SortedSeq(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a < b)
\* present: the layers that have brushes; props: the keys of the entity
Result(present, props, layerOrder, keyOrder) ==
  [nodes |-> IF Ordered THEN SortedSeq(present) ELSE SelectSeq(layerOrder, LAMBDA l : l \in present),
   table |-> {keyOrder[i] : i \in {j \in 1..Len(keyOrder) : keyOrder[j] \in props}}]

VARIABLES inp, n, last
vars == <<memory, inp, n, last>>
Init == /\ Forget /\ n = 0 /\ last = <<>>
        /\ inp \in (SUBSET Layers) \X (SUBSET Keys)
\* a process with any hash seed processes the input
Process == /\ n < Runs /\ n' = n + 1 /\ UNCHANGED inp
           /\ \E lo \in Orders(Layers), ko \in Orders(Keys) :
                LET r == Result(inp[1], inp[2], lo, ko) IN
                /\ last' = r
                /\ memory' = IF Seen(inp) THEN memory ELSE (inp :> r) @@ memory
Next == Process
Spec == Init /\ [][Next]_vars
SameEveryTime == last # <<>> => MayRun(inp, last)
=============================================================================
