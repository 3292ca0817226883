------------------------------- MODULE FaceLine -------------------------------
(* What a face line means, by the positions of its fields.                   *)
EXTENDS Text

NoFace == [ok |-> FALSE]

\* Positions of the numbers in a face line, by field index (1-based):
\* "( x y z )" three times, texture, then either  u v rot sx sy  or
\* "[ ux uy uz uo ] [ vx vy vz vo ]" rot sx sy, then the extras.
PointFields == <<<<2, 3, 4>>, <<7, 8, 9>>, <<12, 13, 14>>>>

ParseFace(line) ==
  LET f == SplitWs(line)
      Has(i) == i <= Len(f)
      Num(i) == Has(i) /\ IsF32(f[i])
      points == \A a \in 1..3 : \A b \in 1..3 : Num(PointFields[a][b])
      tex == Has(16)
      std == Num(17)
      uvIdx == IF std THEN <<17, 18>> ELSE <<18, 19, 20, 21, 24, 25, 26, 27>>
      rest == IF std THEN 19 ELSE 29          \* index of the rotation
      uvok == Has(17) /\ \A j \in 1..Len(uvIdx) : Num(uvIdx[j])
      tail == Num(rest) /\ Num(rest + 1) /\ Num(rest + 2)
      nx == Len(f) - (rest + 2)               \* number of extra fields
      x(i) == rest + 2 + i
      IntF(i) == IsI32(f[i])
      extra == CASE nx = 0 -> TRUE
                 [] nx = 1 -> Num(x(1))
                 [] nx = 3 -> IntF(x(1)) /\ IntF(x(2)) /\ Num(x(3))
                 [] nx = 6 -> /\ IntF(x(1)) /\ IntF(x(2)) /\ Num(x(3))
                              /\ Num(x(4)) /\ Num(x(5)) /\ Num(x(6))
                 [] OTHER -> FALSE
  IN IF ~points \/ ~tex \/ ~uvok \/ ~tail \/ ~extra THEN NoFace
     ELSE [ok |-> TRUE,
           p |-> [a \in 1..3 |-> [b \in 1..3 |-> Milli(f[PointFields[a][b]])]],
           tex |-> Lower(f[16]),
           uvk |-> IF std THEN "std" ELSE "valve",
           uv |-> [j \in 1..Len(uvIdx) |-> Milli(f[uvIdx[j]])],
           rot |-> Milli(f[rest]),
           sc |-> <<Milli(f[rest + 1]), Milli(f[rest + 2])>>,
           col |-> IF nx = 6 THEN <<Milli(f[x(4)]), Milli(f[x(5)]), Milli(f[x(6)])>> ELSE <<>>]
=============================================================================
