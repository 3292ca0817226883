------------------------------ MODULE JudgeTotal ------------------------------
(* Outcomes of processing a file: a scene or an error, nothing else. The     *)
(* record of a run has a status; "panic", "abort" and "hang" are not         *)
(* outcomes any behaviour of the specification has.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Outcomes == {"ok", "err"}
VARIABLES c, out
vars == <<c, out>>
Init == c \in 1..Len(Cases) /\ out = "running"
Finish == /\ out = "running"
          /\ out' = Cases[c].obs.st
          /\ UNCHANGED c
          /\ LET bad == (IF out' \notin Outcomes THEN {[t |-> out', at |-> ""]} ELSE {})
                        \cup (IF Cases[c].missing /\ out' # "err" THEN {[t |-> "no_error", at |-> ""]} ELSE {})
             IN PrintT("@@" \o ToJson([id |-> Cases[c].id, bad |-> bad]))
Next == Finish
Spec == Init /\ [][Next]_vars
=============================================================================
