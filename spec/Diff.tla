--------------------------------- MODULE Diff ---------------------------------
(* Comparing two map files: each is read as one token per line, and the      *)
(* result is an edit script - the tokens removed from the first file and     *)
(* those added by the second.                                                *)
EXTENDS Text

\* what a line reads as; two lines are equal when they read the same
DToken(line) ==
  LET c == IF Len(line) = 0 THEN "" ELSE SubSeq(line, 1, 1) IN
  CASE c = "{" -> <<"open">>
    [] c = "}" -> <<"close">>
    [] c = "/" -> <<"comment", line>>
    [] c = "(" -> <<"face", line>>
    [] c = "\"" -> LET q == SplitOn(line, "\"") IN
                   IF Len(q) >= 4 THEN <<"prop", q[2], q[4]>> ELSE <<"other", line>>
    [] OTHER -> <<"other", line>>
DTokens(lines) == [i \in 1..Len(lines) |-> DToken(lines[i])]

----------------------------------------------------------------------------
(* Walking through both files: position i in a, j in b. A common token is    *)
(* kept, a token of a is removed, a token of b is added.                     *)
DStart == [i |-> 0, j |-> 0, rem |-> <<>>, add |-> <<>>]
CanKeep(s, a, b) == s.i < Len(a) /\ s.j < Len(b) /\ a[s.i + 1] = b[s.j + 1]
CanRemove(s, a, b) == s.i < Len(a)
CanAdd(s, a, b) == s.j < Len(b)
KeepTok(s) == [s EXCEPT !.i = @ + 1, !.j = @ + 1]
DropTok(s, a) == [s EXCEPT !.i = @ + 1, !.rem = Append(@, a[s.i + 1])]
AddTok(s, b) == [s EXCEPT !.j = @ + 1, !.add = Append(@, b[s.j + 1])]
AtEnd(s, a, b) == s.i = Len(a) /\ s.j = Len(b)

----------------------------------------------------------------------------
(* Length of a longest common subsequence, row by row                        *)
MaxOf(x, y) == IF x > y THEN x ELSE y
LcsRow(prev, x, b) ==
  FoldLeft(LAMBDA row, j :
             Append(row, IF x = b[j] THEN prev[j] + 1 ELSE MaxOf(prev[j + 1], row[j])),
           <<0>>, [j \in 1..Len(b) |-> j])
LcsTable(a, b) ==
  FoldLeft(LAMBDA t, x : Append(t, LcsRow(t[Len(t)], x, b)),
           <<[j \in 1..(Len(b) + 1) |-> 0]>>, a)
Lcs(a, b) == LcsTable(a, b)[Len(a) + 1][Len(b) + 1]

Shortest(a, b, rem, add) == Len(rem) = Len(a) - Lcs(a, b) /\ Len(add) = Len(b) - Lcs(a, b)

\* Some walk removes exactly rem and adds exactly add. A walk is at <<i, r, d>>:
\* i tokens of a passed, r of them removed, d tokens added.
ValidScript(a, b, rem, add) ==
  /\ Len(a) - Len(rem) = Len(b) - Len(add) /\ Len(rem) <= Len(a)
  /\ LET step(S) ==
           LET rm == {p \in S : p[1] < Len(a) /\ p[2] < Len(rem) /\ a[p[1] + 1] = rem[p[2] + 1]}
               ad == {p \in S : p[3] < Len(add) /\ p[1] - p[2] + p[3] < Len(b)
                                /\ b[p[1] - p[2] + p[3] + 1] = add[p[3] + 1]}
               kp == {p \in S : p[1] < Len(a) /\ p[1] - p[2] + p[3] < Len(b)
                                /\ a[p[1] + 1] = b[p[1] - p[2] + p[3] + 1]}
           IN TLCEval({<<p[1] + 1, p[2] + 1, p[3]>> : p \in rm}
                \cup {<<p[1], p[2], p[3] + 1>> : p \in ad}
                \cup {<<p[1] + 1, p[2], p[3]>> : p \in kp})
         \* every step takes one token of a or of add
         last == FoldLeft(LAMBDA S, k : step(S), {<<0, 0, 0>>}, [k \in 1..(Len(a) + Len(add)) |-> k])
     IN <<Len(a), Len(rem), Len(add)>> \in last
=============================================================================
