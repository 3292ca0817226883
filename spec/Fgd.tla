---------------------------------- MODULE Fgd ----------------------------------
(* The game-data file (FGD) of a set of definitions, as lines of tokens, and *)
(* the reader that a map editor applies to it: a machine that consumes one   *)
(* line per step.                                                            *)
(*                                                                           *)
(* game data  [name, inc, defs]                                              *)
(* definition [ct, meta, cls, desc, props]                                   *)
(* metadata   [k: base|color|size, d]     colours in quarters of 1/255       *)
(* property   [n, sd, ld, k, d, l]   numbers of kind F, V: <<m, e>> = m/10^e *)
EXTENDS Text

Quote(s) == "\"" \o s \o "\""
\* decimal text of the number m / 10^e; e < 0 gives trailing zeros
RECURSIVE Zeros(_), NoTail(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
NoTail(s) == IF SubSeq(s, Len(s), Len(s)) = "0" THEN NoTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
NoPoint(s) == IF SubSeq(s, Len(s), Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Magnitude(m, e) ==
  IF m = 0 THEN "0"
  ELSE IF e <= 0 THEN ToString(m) \o Zeros(-e)
  ELSE LET t == Zeros(e + 1 - Len(ToString(m))) \o ToString(m)  k == Len(t) - e
       IN NoPoint(NoTail(SubSeq(t, 1, k) \o "." \o SubSeq(t, k + 1, Len(t))))
Dec(x) == IF x[1] < 0 THEN "-" \o Magnitude(-x[1], x[2]) ELSE Magnitude(x[1], x[2])
Sep3(a) == a[1] \o " " \o a[2] \o " " \o a[3]
Bytes(c) == [i \in 1..3 |-> ToString(c[i] \div 4)]
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Joined(ss, sep) == FoldLeft(LAMBDA a, s : IF a = <<>> THEN <<s>> ELSE a \o <<sep, s>>, <<>>, ss)

----------------------------------------------------------------------------
(* Writing                                                                   *)
MetaTokens(m) ==
  CASE m.k = "base" -> <<"base", "(">> \o Joined(m.d, ",") \o <<")">>
    [] m.k = "color" -> <<"color", "(">> \o Bytes(m.d) \o <<")">>
    [] m.k = "size" -> <<"size", "(">>
                       \o Joined([i \in 1..6 |-> Dec(m.d[IF i < 4 THEN 1 ELSE 2][IF i < 4 THEN i ELSE i - 3])], ",") \o <<")">>
Keyword(ct) == CASE ct = "base" -> "@BaseClass" [] ct = "point" -> "@PointClass" [] ct = "solid" -> "@SolidClass"
ClassLine(e) == <<Keyword(e.ct)>> \o Flat([i \in 1..Len(e.meta) |-> MetaTokens(e.meta[i])])
                \o <<"=", e.cls, ":", Quote(e.desc)>>
ChoiceText(c) == CASE c[2] = "I" -> ToString(c[3]) [] c[2] = "F" -> Dec(c[3]) [] OTHER -> c[3]
ChoiceLine(c) == <<IF c[2] = "S" THEN Quote(c[3]) ELSE ChoiceText(c), ":", Quote(c[1])>>
RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
BitSet(d, i) == (d \div Pow2(i)) % 2
FlagLine(p, i) == <<ToString(Pow2(i - 1)), ":", Quote(p.l[i]), ":", ToString(BitSet(p.d, i - 1))>>
Plain(p, type, value) == <<<<p.n, "(", type, ")", ":", Quote(p.sd), ":">> \o value \o <<":", Quote(p.ld)>>>>
PropLines(p) ==
  CASE p.k = "I" -> Plain(p, "integer", <<ToString(p.d)>>)
    [] p.k = "F" -> Plain(p, "float", <<Dec(p.d)>>)
    [] p.k = "V" -> Plain(p, "string", <<Quote(Sep3([i \in 1..3 |-> Dec(p.d[i])]))>>)
    [] p.k = "S" -> Plain(p, "string", <<Quote(p.d)>>)
    [] p.k = "C" -> Plain(p, "color255", <<Quote(Sep3(Bytes(p.d)))>>)
    [] p.k = "H" -> <<<<p.n, "(", "choices", ")", ":", Quote(p.sd), ":", Quote(ChoiceText(p.l[p.d + 1])), "=">>, <<"[">>>>
                    \o [i \in 1..Len(p.l) |-> ChoiceLine(p.l[i])] \o <<<<"]">>>>
    [] p.k = "L" -> <<<<p.n, "(", "flags", ")", "=">>, <<"[">>>>
                    \o [i \in 1..Len(p.l) |-> FlagLine(p, i)] \o <<<<"]">>>>
    [] p.k = "TS" -> Plain(p, "target_source", <<>>)
    [] p.k = "TD" -> Plain(p, "target_destination", <<>>)
ClassLines(e) == <<ClassLine(e), <<"[">>>> \o Flat([i \in 1..Len(e.props) |-> PropLines(e.props[i])]) \o <<<<"]">>>>
Written(g) ==
  <<<<"// " \o g.name>>>>
  \o [i \in 1..Len(g.inc) |-> <<"@include", Quote(g.inc[i])>>]
  \o Flat([i \in 1..Len(g.defs) |-> ClassLines(g.defs[i])])

----------------------------------------------------------------------------
(* Reading. What is recovered: every token sequence in its role.             *)
\* [at: file|head|class|open|list, name, inc, defs]
RStart == [at |-> "file", name |-> "", inc |-> <<>>, defs |-> <<>>]
Unq(t) == SubSeq(t, 2, Len(t) - 1)
IsQ(t) == Len(t) >= 2 /\ SubSeq(t, 1, 1) = "\"" /\ SubSeq(t, Len(t), Len(t)) = "\""
Find(l, t) == LET S == {i \in 1..Len(l) : l[i] = t} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
PutLast(s, x) == [s EXCEPT ![Len(s)] = x]
\* split "base ( a , b ) color ( 1 2 3 )" at the closing parentheses
ReadMeta(l) ==
  FoldLeft(LAMBDA a, t :
    CASE t = "(" -> [a EXCEPT !.args = <<>>]
      [] t = ")" -> [k |-> "", args |-> <<>>, out |-> Append(a.out, <<a.k, a.args>>)]
      [] t = "," -> a
      [] a.k = "" -> [a EXCEPT !.k = t]
      [] OTHER -> [a EXCEPT !.args = Append(@, t)],
    [k |-> "", args |-> <<>>, out |-> <<>>], l).out
RClass(l) == LET e == Find(l, "=") IN
  [ct |-> l[1], meta |-> ReadMeta(SubSeq(l, 2, e - 1)), cls |-> l[e + 1], desc |-> Unq(l[e + 3]), props |-> <<>>]
RProp(l) ==
  CASE l[3] = "flags" -> [n |-> l[1], type |-> l[3], sd |-> "", val |-> <<>>, ld |-> "", list |-> <<>>]
    [] l[3] = "choices" -> [n |-> l[1], type |-> l[3], sd |-> Unq(l[6]), val |-> <<Unq(l[8])>>, ld |-> "", list |-> <<>>]
    [] Len(l) = 9 -> [n |-> l[1], type |-> l[3], sd |-> Unq(l[6]), val |-> <<>>, ld |-> Unq(l[9]), list |-> <<>>]
    [] OTHER -> [n |-> l[1], type |-> l[3], sd |-> Unq(l[6]),
                 val |-> <<IF IsQ(l[8]) THEN Unq(l[8]) ELSE l[8]>>, ld |-> Unq(l[10]), list |-> <<>>]
ReadFgd(r, l) ==
  CASE Len(l) = 1 /\ Len(l[1]) >= 2 /\ SubSeq(l[1], 1, 2) = "//" -> [r EXCEPT !.name = SubSeq(l[1], 4, Len(l[1]))]
    [] l[1] = "@include" -> [r EXCEPT !.inc = Append(@, Unq(l[2]))]
    [] r.at = "file" -> [r EXCEPT !.at = "head", !.defs = Append(@, RClass(l))]
    [] l = <<"[">> /\ r.at = "head" -> [r EXCEPT !.at = "class"]
    [] l = <<"[">> /\ r.at = "open" -> [r EXCEPT !.at = "list"]
    [] l = <<"]">> /\ r.at = "list" -> [r EXCEPT !.at = "class"]
    [] l = <<"]">> /\ r.at = "class" -> [r EXCEPT !.at = "file"]
    [] r.at = "class" ->
         [r EXCEPT !.defs = PutLast(@, [Last(@) EXCEPT !.props = Append(@, RProp(l))]),
                   !.at = IF l[3] \in {"flags", "choices"} THEN "open" ELSE "class"]
    [] r.at = "list" ->
         [r EXCEPT !.defs = PutLast(@, [Last(@) EXCEPT
             !.props = PutLast(@, [Last(@) EXCEPT !.list = Append(@, l)])])]

(* What the reader of a faithful file knows of the definitions.              *)
Known(g) ==
  [at |-> "file", name |-> g.name, inc |-> g.inc,
   defs |-> [i \in 1..Len(g.defs) |->
     LET e == g.defs[i] IN
     [ct |-> Keyword(e.ct), cls |-> e.cls, desc |-> e.desc,
      meta |-> [j \in 1..Len(e.meta) |->
         LET m == e.meta[j] IN
         <<m.k, CASE m.k = "base" -> m.d [] m.k = "color" -> Bytes(m.d)
                  [] OTHER -> [x \in 1..6 |-> Dec(m.d[IF x < 4 THEN 1 ELSE 2][IF x < 4 THEN x ELSE x - 3])]>>],
      props |-> [j \in 1..Len(e.props) |->
         LET p == e.props[j]
             rec(type, val) == [n |-> p.n, type |-> type, sd |-> p.sd, val |-> val, ld |-> p.ld, list |-> <<>>]
         IN CASE p.k = "I" -> rec("integer", <<ToString(p.d)>>)
              [] p.k = "F" -> rec("float", <<Dec(p.d)>>)
              [] p.k = "V" -> rec("string", <<Sep3([x \in 1..3 |-> Dec(p.d[x])])>>)
              [] p.k = "S" -> rec("string", <<p.d>>)
              [] p.k = "C" -> rec("color255", <<Sep3(Bytes(p.d))>>)
              [] p.k = "TS" -> rec("target_source", <<>>)
              [] p.k = "TD" -> rec("target_destination", <<>>)
              [] p.k = "H" -> [n |-> p.n, type |-> "choices", sd |-> p.sd, ld |-> "",
                               val |-> <<ChoiceText(p.l[p.d + 1])>>,
                               list |-> [x \in 1..Len(p.l) |-> ChoiceLine(p.l[x])]]
              [] p.k = "L" -> [n |-> p.n, type |-> "flags", sd |-> "", ld |-> "", val |-> <<>>,
                               list |-> [x \in 1..Len(p.l) |-> FlagLine(p, x)]]]]]]

----------------------------------------------------------------------------
(* Numeric codes                                                             *)
CodeTable ==
  [class |-> <<<<"BaseClass", 0>>, <<"PointClass", 1>>, <<"SolidClass", 2>>>>,
   collision |-> <<<<"None", 0>>, <<"Convex", 1>>, <<"Concave", 2>>>>,
   visual |-> <<<<"None", 0>>, <<"Mesh", 1>>>>,
   component |-> <<<<"None", 0>>, <<"Script", 1>>>>,
   entity |-> <<<<"Placeholder", 0>>, <<"Class", 1>>, <<"Prefab", 2>>>>,
   metadata |-> <<<<"Base", 0>>, <<"Color", 1>>, <<"Size", 2>>>>]
Pairs(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
