-------------------------------- MODULE MCFgd --------------------------------
(* Every small set of definitions is written, and the reader recovers it.    *)
EXTENDS Fgd, Json
CONSTANTS MaxProps, Emit
VARIABLES g, lines, r
vars == <<g, lines, r>>

P(k, d, l) == [n |-> "p" \o k, sd |-> "s", ld |-> "l: d", k |-> k, d |-> d, l |-> l]
Choice3 == <<<<"a", "I", 7>>, <<"b", "F", <<-125, 2>>>>, <<"c", "S", "x y">>>>
Flags3 == <<"f1", "f 2", "f3">>
Props == {P("I", -3, <<>>), P("F", <<6282, 3>>, <<>>), P("V", <<<<-4, 0>>, <<5, 4>>, <<0, 0>>>>, <<>>), P("S", "a = [ b", <<>>),
          P("C", <<0, 511, 1020>>, <<>>), P("TS", 0, <<>>), P("TD", 0, <<>>)}
         \cup {P("H", d, SubSeq(Choice3, 1, n)) : <<d, n>> \in {<<0, 1>>, <<1, 2>>, <<0, 3>>, <<2, 3>>}}
         \cup {P("L", d, SubSeq(Flags3, 1, n)) : <<d, n>> \in {0, 1, 2, 5, 7, 8, -1} \X {0, 1, 3}}
Metas == {<<>>, <<[k |-> "base", d |-> <<"A">>]>>,
          <<[k |-> "size", d |-> <<<<<<-4, 0>>, <<-40, 1>>, <<0, 2>>>>, <<<<4, -2>>, <<4, 0>>, <<85, 1>>>>>>], [k |-> "base", d |-> <<"A", "B">>]>>,
          <<[k |-> "color", d |-> <<4, 512, 1020>>], [k |-> "color", d |-> <<0, 0, 3>>]>>}
PropSeqs == UNION {[1..n -> Props] : n \in 0..MaxProps}
Defs == {[ct |-> ct, meta |-> m, cls |-> "c", desc |-> "d", props |-> ps] :
           ct \in {"base", "point", "solid"}, m \in Metas, ps \in PropSeqs}
Small == {[ct |-> "point", meta |-> <<>>, cls |-> "e", desc |-> "", props |-> <<>>],
          [ct |-> "solid", meta |-> <<>>, cls |-> "f", desc |-> "", props |-> <<P("L", 2, Flags3)>>]}
Games == {[name |-> "n", inc |-> inc, defs |-> ds] :
            inc \in {<<>>, <<"a.fgd", "b.fgd">>},
            ds \in {<<>>} \cup {<<d>> : d \in Defs} \cup {<<d, e>> : d \in Small, e \in Small}}

Init == g \in Games /\ lines = Written(g) /\ r = RStart
Next == /\ lines # <<>>
        /\ r' = ReadFgd(r, lines[1]) /\ lines' = Tail(lines)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

\* everything written is read back, in order
Recovered == lines = <<>> => r = Known(g)
\* what was read never changes again
Grows == [][/\ Len(r'.inc) >= Len(r.inc) /\ SubSeq(r'.inc, 1, Len(r.inc)) = r.inc
            /\ Len(r'.defs) >= Len(r.defs)
            /\ \A i \in 1..(Len(r.defs) - 1) : r'.defs[i] = r.defs[i]]_vars
\* a flag's bit value and default, independently of the other flags
FlagBits == lines = <<>> =>
  \A i \in 1..Len(r.defs) : \A j \in 1..Len(r.defs[i].props) :
    LET p == r.defs[i].props[j] IN
    p.type = "flags" =>
      LET d == g.defs[i].props[j].d
          on == {x \in 1..Len(p.list) : p.list[x][5] = "1"}
          sum == FoldLeft(LAMBDA a, x : a + (IF x \in on THEN Pow2(x - 1) ELSE 0), 0, [x \in 1..Len(p.list) |-> x])
      IN sum = d % Pow2(Len(p.list))
EmitState == (Emit /\ r = RStart /\ lines = Written(g)) => PrintT("@@" \o ToJson(g))
=============================================================================
