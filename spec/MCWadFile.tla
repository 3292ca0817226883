------------------------------- MODULE MCWadFile -------------------------------
(* Damage to WAD files: every truncation and every corrupted byte of the     *)
(* given files, as one-step behaviours. What is read from a damaged file is  *)
(* an error or what the file's bytes say; the damaged files are conformance  *)
(* inputs.                                                                   *)
EXTENDS Wad, Json, IOUtils
CONSTANTS Emit, Values, Cuts
Files == ndJsonDeserialize(IOEnv.FILES)   \* [f: bytes, pos: positions to corrupt]
VARIABLES n, mut, f
vars == <<n, mut, f>>

Init == n \in 1..Len(Files) /\ mut = <<"none">> /\ f = Files[n].f
Truncate == /\ mut = <<"none">> /\ Cuts
            /\ \E k \in 0..(Len(f) - 1) :
                 mut' = <<"cut", k>> /\ f' = SubSeq(f, 1, k)
            /\ UNCHANGED n
Corrupt == /\ mut = <<"none">>
           /\ \E i \in 1..Len(Files[n].pos) : \E v \in Values :
                LET p == Files[n].pos[i] IN
                /\ f[p + 1] # v
                /\ mut' = <<"set", p, v>> /\ f' = [f EXCEPT ![p + 1] = v]
           /\ UNCHANGED n
Next == Truncate \/ Corrupt
Spec == Init /\ [][Next]_vars

Mips == Files[n].mips
Read == ReadWad(f, <<>>, Mips)
Whole == ReadWad(Files[n].f, <<>>, Mips)
\* a truncated file never gives other data
CutNeverLies == mut[1] = "cut" => LET r == Read IN r = Err \/ r = Whole
\* results are complete: the levels have their sizes, the bytes are in the file
Complete ==
  LET r == Read IN
  r.st = "ok" => \A i \in 1..Len(r.tex) :
    LET t == r.tex[i]  s == Mul(t.dim[1], t.dim[2]) IN
    /\ Len(t.mips) = Mips
    /\ Len(t.mips[1]) = s /\ s <= Len(f)
    /\ \A l \in 2..Mips : Len(t.mips[l]) = Len(t.mips[l - 1]) \div 4
    /\ \A p \in 1..Len(t.pal) : Len(t.pal[p]) = PaletteBytes
\* damage to one byte of a directory name or texture name keeps everything else
Undamaged == mut = <<"none">> => Read.st = "ok"
EmitState == Emit => PrintT("@@" \o ToJson([n |-> n, mut |-> mut, st |-> Read.st]))
=============================================================================
