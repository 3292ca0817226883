-------------------------------- MODULE MCDiff --------------------------------
(* Every walk through every pair of short files: no edit script is shorter   *)
(* than the table says, some script is that short, and a script is valid     *)
(* exactly when a walk produces it. The pairs are also conformance inputs.   *)
EXTENDS Diff, Json, FiniteSets
CONSTANTS Tokens, MaxLen, Complete, Emit
VARIABLES a, b, s
vars == <<a, b, s>>

Files == UNION {[1..n -> Tokens] : n \in 0..MaxLen}
\* Walking back through the table from its last cell. Incomplete: the table of
\* both files without their last lines (the defect of the original code).
BackStep(t, x, y, w) ==
  IF w.i > 0 /\ w.j > 0 /\ x[w.i] = y[w.j] THEN [w EXCEPT !.i = @ - 1, !.j = @ - 1]
  ELSE IF w.i > 0 /\ (w.j = 0 \/ t[w.i][w.j + 1] > t[w.i + 1][w.j])
       THEN [w EXCEPT !.i = @ - 1, !.rem = <<x[w.i]>> \o @]
       ELSE IF w.j > 0 THEN [w EXCEPT !.j = @ - 1, !.add = <<y[w.j]>> \o @] ELSE w
Cut(x) == IF Complete \/ x = <<>> THEN x ELSE SubSeq(x, 1, Len(x) - 1)
Computed(x, y) ==
  LET t == LcsTable(Cut(x), Cut(y))
  IN FoldLeft(LAMBDA w, k : BackStep(t, x, y, w),
              [i |-> Len(Cut(x)), j |-> Len(Cut(y)), rem |-> <<>>, add |-> <<>>],
              [k \in 1..(Len(x) + Len(y)) |-> k])

Init == a \in Files /\ b \in Files /\ s = DStart
Next == /\ UNCHANGED <<a, b>>
        /\ \/ CanKeep(s, a, b) /\ s' = KeepTok(s)
           \/ CanRemove(s, a, b) /\ s' = DropTok(s, a)
           \/ CanAdd(s, a, b) /\ s' = AddTok(s, b)
Spec == Init /\ [][Next]_vars

NoneShorter == AtEnd(s, a, b) => Len(s.rem) >= Len(a) - Lcs(a, b) /\ Len(s.add) >= Len(b) - Lcs(a, b)
WalksAreValid == AtEnd(s, a, b) => ValidScript(a, b, s.rem, s.add)
ComputedIsShortest ==
  s = DStart => LET w == Computed(a, b) IN ValidScript(a, b, w.rem, w.add) /\ Shortest(a, b, w.rem, w.add)
\* valid scripts come from walks only: removing any kept token breaks it
OnlyWalksAreValid ==
  AtEnd(s, a, b) /\ s.rem # <<>> => ~ValidScript(a, b, Tail(s.rem), s.add)
EmitState == (Emit /\ s = DStart) => PrintT("@@" \o ToJson([a |-> a, b |-> b]))
=============================================================================
