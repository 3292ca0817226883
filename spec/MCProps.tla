------------------------------- MODULE MCProps -------------------------------
(* The properties of one entity, put into its table one after the other:     *)
(* first the bookkeeping keys of groups, then what the definition declares.  *)
(* Every kind meets every spelling, also under the names of the bookkeeping  *)
(* keys. The finished table is Scene!PropTable. Every start state is a       *)
(* conformance case.                                                         *)
EXTENDS Scene

CONSTANTS Rule,   \* "declared": a declared property replaces a bookkeeping one;
                  \* "kept" (negative control): the first one stays
          Emit

Numbers == {"0", "5", "-7", "+12", "0009", "2147483647", "-2147483648", "5.0", "1e3", "2147483648", "-2147483649",
            "--1", "0x10", "1_000", "+", "-", "-0", "1.5", "-2.25", ".5", "5.", "1E+1", "25e-1", "1,5", "1.5f", "1e",
            ".", "1.2.3", "nan", "inf", "-inf", "infinity", "Infinity", "0.001", "123456.5", "1e-3", "e5", "1e+", "+.5", "-.", "00.50"}
Blanks == {"", " ", " 7", "7 ", "1 2", "\t1"}
Triples0 == {"1 2 3", "1.5 -2 .5", "1 2 3 4", "1 2 3 x", "x 2 3", "1 y 3", "1 2 z", "1  2 3", " 1 2 3", "1 2 3 ", "1,2,3",
             "+1 -2 3e1", "0 0 0", "1\t2 3", "255 128 0", "1 2 3 4 5", "1 2 3.", "1 2 ", "nan 0 0"}
Strings == {"text", "Mixed Case  two spaces", "{", "( 1 )", "// x", "'q'", "a;b=c", "true", "tail  "}
Spellings == Numbers \cup Blanks \cup Triples0 \cup Strings
Kinds == {"I", "H", "L", "F", "V", "C", "S", "TS", "TD"}
Few == {"", "3", "-1", "x", "1 2 3", "2.5", "2147483648"}
Book == {"_tb_id", "_tb_group", "_tb_type", "_tb_name"}

Default(k) == CASE k \in {"I", "H", "L"} -> 250
                [] k = "F" -> -1250
                [] k \in {"V", "C"} -> <<250, -500, 1000>>
                [] k = "S" -> "dflt"
                [] OTHER -> ""

\* raw: <<>> or <<value>> of each name; decl: declared <<name, kind>> in order
VARIABLES raw, decl, table, step
vars == <<raw, decl, table, step>>
Names == {"pp"} \cup Book
Absent == [n \in Names |-> <<>>]

Init ==
  /\ \/ \* every kind, every spelling
        \E k \in Kinds, v \in {<<s>> : s \in Spellings} \cup {<<>>} :
          decl = <<<<"pp", k>>>> /\ raw = [Absent EXCEPT !["pp"] = v]
     \/ \* bookkeeping keys, not declared or declared with some kind
        \E b \in Book, k \in Kinds \cup {"-"}, v \in {<<s>> : s \in Few} \cup {<<>>} :
          /\ decl = (IF k = "-" THEN <<>> ELSE <<<<b, k>>>>) \o <<<<"pp", "I">>>>
          /\ raw = [Absent EXCEPT ![b] = v, !["pp"] = <<"4">>]
     \/ \* all of them at once, one declared
        \E k \in {"I", "S", "F"}, b \in Book, v \in [Book -> {<<>>, <<"6">>, <<"g">>}] :
          decl = <<<<"pp", "S">>, <<b, k>>>> /\ raw = [n \in Names |-> IF n = "pp" THEN <<>> ELSE v[n]]
  /\ table = <<>> /\ step = 0

\* the table as a sequence of <<name, value>>, a later value replacing an earlier one
Put(t, n, v) ==
  LET at == {i \in 1..Len(t) : t[i][1] = n}
  IN IF at = {} THEN Append(t, <<n, v>>) ELSE IF Rule = "kept" THEN t ELSE [t EXCEPT ![FirstIdx(at)] = <<n, v>>]
BookSeq == <<"_tb_id", "_tb_group", "_tb_type", "_tb_name">>
StepBook ==
  /\ step < 4
  /\ LET n == BookSeq[step + 1]  v == raw[n] IN
     table' = IF v = <<>> THEN table
              ELSE IF n \in {"_tb_id", "_tb_group"}
                   THEN (IF IsI32(v[1]) THEN Put(table, n, <<"I", I32(v[1])>>) ELSE table)
                   ELSE Put(table, n, <<"S", v[1]>>)
  /\ step' = step + 1 /\ UNCHANGED <<raw, decl>>

\* reading a value as its kind: "none" when it does not read
ReadAs(k, s) ==
  CASE k \in {"I", "H", "L"} -> IF IsI32(s) THEN <<k, I32(s)>> ELSE <<>>
    [] k = "F" -> IF ~IsF32(s) THEN <<>> ELSE IF Milli(s).k = "num" THEN <<k, Milli(s).v>> ELSE Unjudged
    [] k \in {"V", "C"} ->
         LET f == SplitOn(s, " ") IN
         IF Len(f) < 3 \/ \E i \in 1..3 : ~IsF32(f[i]) THEN <<>>
         ELSE IF \E i \in 1..3 : Milli(f[i]).k # "num" THEN Unjudged
         ELSE <<k, <<Milli(f[1]).v, Milli(f[2]).v, Milli(f[3]).v>>>>
    [] k = "S" -> <<k, s>>
    [] OTHER -> <<k, "">>
StepDeclared ==
  /\ step >= 4 /\ step < 4 + Len(decl)
  /\ LET d == decl[step - 3]
         r == IF raw[d[1]] = <<>> THEN <<>> ELSE ReadAs(d[2], raw[d[1]][1])
     IN table' = Put(table, d[1], IF r = <<>> THEN <<d[2], Default(d[2])>> ELSE r)
  /\ step' = step + 1 /\ UNCHANGED <<raw, decl>>

Next == StepBook \/ StepDeclared
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == step = 4 + Len(decl)
\* the same entity and definition as the judge sees them
Ent == [props |-> SelectSeq(<<<<"classname", "ent">>>> \o
                    [i \in 1..5 |-> LET n == (<<"pp">> \o BookSeq)[i] IN IF raw[n] = <<>> THEN <<"-", "">> ELSE <<n, raw[n][1]>>],
                  LAMBDA p : p[1] # "-"), brushes |-> <<>>]
Conf == [forge |-> <<[cls |-> "ent", props |-> [i \in 1..Len(decl) |-> <<decl[i][1], decl[i][2], Default(decl[i][2])>>]]>>]

TableIsRight == Done => Range1(table) = PropTable(Conf, Ent)
OncePerName == \A i, j \in 1..Len(table) : table[i][1] = table[j][1] => i = j
EveryDeclared == Done => \A i \in 1..Len(decl) : \E j \in 1..Len(table) : table[j][1] = decl[i][1] /\ table[j][2][1] \in {decl[i][2], "?"}
\* nothing else comes in
OnlyKnown == \A j \in 1..Len(table) : table[j][1] \in Book \/ \E i \in 1..Len(decl) : decl[i][1] = table[j][1]
Ends == <>Done

EmitCase == (Emit /\ step = 0) =>
  PrintT("@@" \o ToJson([decl |-> decl, raw |-> {<<n, raw[n][1]>> : n \in {m \in Names : raw[m] # <<>>}}]))
=============================================================================
