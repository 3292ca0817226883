------------------------------- MODULE JudgeFgd -------------------------------
(* The text written for a set of definitions, split into lines of tokens,    *)
(* is judged against what the specification writes; the reader must recover  *)
(* the definitions from it. Numeric codes are judged against their table.    *)
EXTENDS Fgd, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, out
vars == <<c, out>>
Case == Cases[c]
If(b, t, at) == IF b THEN {[t |-> t, at |-> ToString(at)]} ELSE {}
FirstDiff(a, b) ==
  LET S == {i \in 1..(Len(a) + Len(b)) : i > Len(a) \/ i > Len(b) \/ (i <= Len(a) /\ i <= Len(b) /\ a[i] # b[i])}
  IN CHOOSE i \in S : \A j \in S : i <= j
At(s, i) == IF i <= Len(s) THEN s[i] ELSE <<>>
TextDevs ==
  LET w == TLCEval(Written(Case.g))  o == TLCEval(Case.obs.lines) IN
  IF w # o THEN LET i == FirstDiff(w, o) IN If(TRUE, "text", <<i, At(w, i), At(o, i)>>)
  ELSE If(FoldLeft(ReadFgd, RStart, o) # Known(Case.g), "reader", "")
CodeDevs ==
  LET o == Case.obs.codes IN
  UNION {If(Pairs(o[k]) # Pairs(CodeTable[k]), "code", <<k, o[k]>>) : k \in DOMAIN CodeTable}
  \cup UNION {If(Pairs(o[k \o "_back"]) # {<<p[2], p[1]>> : p \in Pairs(CodeTable[k])}, "back", <<k, o[k \o "_back"]>>)
              : k \in {"class", "collision", "visual"}}
Deviations ==
  IF Case.obs.st # "ok" THEN If(TRUE, Case.obs.st, "")
  ELSE IF Case.kind = "codes" THEN CodeDevs
  ELSE TextDevs \cup If(~Case.obs.saved, "saved_text", "") \cup If(~Case.obs.badpath, "save_without_error", "")
Init == c \in 1..Len(Cases) /\ out = "read"
Next == /\ out = "read" /\ out' = "judged" /\ UNCHANGED c
        /\ PrintT("@@" \o ToJson([id |-> Case.id, bad |-> Deviations]))
Spec == Init /\ [][Next]_vars
=============================================================================
