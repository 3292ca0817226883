-------------------------------- MODULE Text --------------------------------
(* Character-level grammar used by the map format: white-space separated     *)
(* fields, quoted parts, 32-bit integer and float literals, lower-casing.    *)
(* Strings are TLA+ strings; a character is a string of length one.          *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Json

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
\* white space and lower-case forms beyond ASCII
Unicode == ndJsonDeserialize("unicode.ndjson")[1]
White == {Unicode.white[i] : i \in 1..Len(Unicode.white)}
LowerOf == Unicode.lower
UpperSet == DOMAIN LowerOf
LowerCh(c) == IF c \in UpperSet THEN LowerOf[c] ELSE c
Lower(s) == FoldLeft(LAMBDA a, c : a \o LowerCh(c), "", Chars(s))

\* fields separated by runs of white space
SplitWs(s) ==
  LET r == FoldLeft(LAMBDA a, c :
               IF c \in White
               THEN IF a.cur = "" THEN a ELSE [cur |-> "", out |-> Append(a.out, a.cur)]
               ELSE [a EXCEPT !.cur = @ \o c],
             [cur |-> "", out |-> <<>>], Chars(s))
  IN IF r.cur = "" THEN r.out ELSE Append(r.out, r.cur)

\* fields separated by single occurrences of d (empty fields count)
SplitOn(s, d) ==
  LET r == FoldLeft(LAMBDA a, c :
               IF c = d THEN [cur |-> "", out |-> Append(a.out, a.cur)]
               ELSE [a EXCEPT !.cur = @ \o c],
             [cur |-> "", out |-> <<>>], Chars(s))
  IN Append(r.out, r.cur)

StripSign(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
Negative(s) == Len(s) > 0 /\ SubSeq(s, 1, 1) = "-"

----------------------------------------------------------------------------
(* Float literals: sign? (inf | infinity | nan | digits[.digits][e sign? digits]) *)
FloatStep(q, c) ==
  CASE q = "start" /\ c \in Digits -> "int"
    [] q = "start" /\ c = "." -> "dot"
    [] q = "int" /\ c \in Digits -> "int"
    [] q = "int" /\ c = "." -> "frac"
    [] q = "int" /\ c \in {"e", "E"} -> "e"
    [] q = "dot" /\ c \in Digits -> "frac"
    [] q = "frac" /\ c \in Digits -> "frac"
    [] q = "frac" /\ c \in {"e", "E"} -> "e"
    [] q = "e" /\ c \in {"+", "-"} -> "esign"
    [] q \in {"e", "esign", "exp"} /\ c \in Digits -> "exp"
    [] OTHER -> "bad"

IsDecimal(s) == FoldLeft(FloatStep, "start", Chars(s)) \in {"int", "frac", "exp"}
IsInf(s) == Lower(StripSign(s)) \in {"inf", "infinity"}
IsNan(s) == Lower(StripSign(s)) = "nan"
IsF32(s) == Len(s) > 0 /\ (IsDecimal(StripSign(s)) \/ IsInf(s) \/ IsNan(s))

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

(* The value of a float literal in thousandths, as [k |-> "num", v |-> n];   *)
(* "big" when it does not fit in 31 bits or has digits below 1/1000 that the *)
(* fixed-point view would lose (such a value is then not judged).            *)
Milli(s) ==
  IF IsNan(s) THEN [k |-> "nan", v |-> 0]
  ELSE IF IsInf(s) THEN [k |-> "inf", v |-> 0]
  ELSE
  LET acc == FoldLeft(LAMBDA a, c :
        IF a.ph = "exp"
        THEN IF c = "-" THEN [a EXCEPT !.eneg = TRUE]
             ELSE IF c = "+" THEN a
             ELSE [a EXCEPT !.e = IF @ > 99 THEN @ ELSE 10 * @ + DigitVal[c]]
        ELSE IF c \in {"e", "E"} THEN [a EXCEPT !.ph = "exp"]
        ELSE IF c = "." THEN [a EXCEPT !.ph = "frac"]
        ELSE [a EXCEPT !.m = IF @ > 20000000 THEN @ ELSE 10 * @ + DigitVal[c],
                       !.over = @ \/ (a.m > 20000000),
                       !.fd = IF a.ph = "frac" THEN @ + 1 ELSE @],
        [ph |-> "int", m |-> 0, fd |-> 0, e |-> 0, eneg |-> FALSE, over |-> FALSE],
        Chars(StripSign(s)))
      x == (IF acc.eneg THEN -acc.e ELSE acc.e) - acc.fd + 3
      sg == IF Negative(s) THEN -1 ELSE 1
      big == [k |-> "big", v |-> 0]
  IN IF acc.over THEN big
     ELSE IF acc.m = 0 THEN [k |-> "num", v |-> 0]
     ELSE IF x >= 0
          THEN IF x <= 9 /\ acc.m <= 2000000000 \div Pow10(x)
               THEN [k |-> "num", v |-> sg * acc.m * Pow10(x)] ELSE big
          ELSE IF -x <= 8 /\ acc.m % Pow10(-x) = 0
               THEN [k |-> "num", v |-> sg * (acc.m \div Pow10(-x))] ELSE big

----------------------------------------------------------------------------
(* 32-bit integer literals *)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
StripZeros(s) ==
  LET nz == {i \in 1..Len(s) : SubSeq(s, i, i) # "0"}
  IN IF nz = {} THEN "" ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
DigitsLeq(a, b) == \* equal length digit strings, a <= b
  \/ a = b
  \/ \E i \in 1..Len(a) : /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)
                          /\ DigitVal[SubSeq(a, i, i)] < DigitVal[SubSeq(b, i, i)]
IsI32(s) ==
  LET d == StripSign(s)  z == StripZeros(d)
  IN /\ AllDigits(d)
     /\ \/ Len(z) < 10
        \/ Len(z) = 10 /\ DigitsLeq(z, IF Negative(s) THEN "2147483648" ELSE "2147483647")
I32(s) ==
  LET z == StripZeros(StripSign(s))
  IN IF Negative(s) THEN FoldLeft(LAMBDA a, c : a * 10 - DigitVal[c], 0, Chars(z))
     ELSE FoldLeft(LAMBDA a, c : a * 10 + DigitVal[c], 0, Chars(z))
=============================================================================
