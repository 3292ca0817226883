--------------------------- MODULE JudgeDeterminism ---------------------------
(* A history of runs of one input and of a changed input, in several         *)
(* processes: every run must be a step of Determinism, and what the change   *)
(* does not concern stays bit-identical and in order.                        *)
(*                                                                           *)
(* run   [inp, st, whole, actors: << <<path, digest>> .. >>]                 *)
(* case  [touched: names of the entities the change concerns]                *)
EXTENDS Determinism, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, bad
vars == <<c, i, bad, memory>>
Case == Cases[c]
Runs == Case.obs.runs
If(b, t, at) == IF b THEN {[t |-> t, at |-> ToString(at)]} ELSE {}

Init == c \in 1..Len(Cases) /\ i = 0 /\ bad = {} /\ Forget
Outcome(r) == [st |-> r.st, whole |-> r.whole, actors |-> r.actors]
Accept == /\ i < Len(Runs) /\ MayRun(Runs[i + 1].inp, Outcome(Runs[i + 1]))
          /\ Run(Runs[i + 1].inp, Outcome(Runs[i + 1]))
          /\ i' = i + 1 /\ UNCHANGED <<c, bad>>
Refuse == /\ i < Len(Runs) /\ ~MayRun(Runs[i + 1].inp, Outcome(Runs[i + 1]))
          /\ bad' = bad \cup {[t |-> "differs", at |-> Runs[i + 1].inp]}
          /\ i' = i + 1 /\ UNCHANGED <<c, memory>>

Untouched(a) == SelectSeq(a, LAMBDA x : ~\E k \in 1..Len(Case.touched) : x[2] = Case.touched[k])
OrderOnly(a) == [k \in 1..Len(a) |-> a[k][1]]
ChangeDevs ==
  IF ~Seen("base") \/ ~Seen("changed") THEN {}
  ELSE LET b == memory["base"]  x == memory["changed"] IN
       IF b.st # "ok" \/ x.st # "ok" THEN If(b.st # x.st, "changed_status", <<b.st, x.st>>)
       ELSE LET u == Untouched(b.actors)  v == Untouched(x.actors) IN
            IF u = v THEN {}
            ELSE If(OrderOnly(u) # OrderOnly(v), "unrelated_moved", <<OrderOnly(u), OrderOnly(v)>>)
                 \cup UNION {If(\A l \in 1..Len(v) : v[l] # u[k], "unrelated_changed", u[k][1]) : k \in 1..Len(u)}
Judge == /\ i = Len(Runs) /\ i' = i + 1 /\ UNCHANGED <<c, memory>>
         /\ bad' = bad \cup (IF Case.obs.st \in {"ok", "err"} THEN ChangeDevs ELSE If(TRUE, Case.obs.st, ""))
         /\ PrintT("@@" \o ToJson([id |-> Case.id, bad |-> bad']))
Next == Accept \/ Refuse \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
