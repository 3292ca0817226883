------------------------------ MODULE JudgeDiff ------------------------------
(* A recorded comparison of two files is judged as an edit script.           *)
EXTENDS Diff, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, out
vars == <<c, out>>
Case == Cases[c]
If(b, t) == IF b THEN {[t |-> t, at |-> ""]} ELSE {}
Unreadable == "akind" \in DOMAIN Case \/ "bkind" \in DOMAIN Case
Deviations ==
  IF Unreadable THEN If(Case.obs.st # "err", "no_error")
  ELSE IF Case.obs.st # "ok" THEN {[t |-> Case.obs.st, at |-> ""]}
  ELSE LET a == DTokens(Case.a)  b == DTokens(Case.b)
           rem == Case.obs.removed  add == Case.obs.added
       IN IF ~Shortest(a, b, rem, add) THEN If(TRUE, "not_minimal")
          ELSE If(~ValidScript(a, b, rem, add), "not_a_script")
Init == c \in 1..Len(Cases) /\ out = "read"
Next == /\ out = "read" /\ out' = "judged" /\ UNCHANGED c
        /\ PrintT("@@" \o ToJson([id |-> Case.id, bad |-> Deviations]))
Spec == Init /\ [][Next]_vars
=============================================================================
