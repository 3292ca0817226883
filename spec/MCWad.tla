--------------------------------- MODULE MCWad ---------------------------------
(* Parallel readers of one WAD file under every schedule. Each reader opens  *)
(* the file, seeks to its data, reads it in pieces of any size, seeks to its *)
(* palette and reads that. The result may only depend on the file.           *)
EXTENDS Wad, FiniteSets
CONSTANTS Jobs,      \* number of textures
          Threads,   \* readers running at the same time
          FileLen,
          Shared,    \* TRUE: all readers share one file position (the defect)
          Stops      \* TRUE: a read may be delivered short (end of file excepted)

VARIABLES job,       \* what each texture needs, chosen at the start
          pc,        \* per texture: "todo","seekd","data","seekp","pal","done","err"
          pos,       \* per texture: position of its handle (index 0: the shared one)
          got,       \* per texture: [data, pal] read so far
          result     \* <<>> while running
vars == <<job, pc, pos, got, result>>

File == [i \in 1..FileLen |-> 10 + i]
J == 1..Jobs
Stretch == {<<o, n>> : o \in 0..(FileLen + 1), n \in 1..2}
AJob(d, p) == [data |-> d, pal |-> p, haspal |-> TRUE, fits |-> d[2]]
JobSet == {AJob(d, p) : d \in {<<0, 2>>, <<1, 2>>, <<FileLen - 1, 2>>}, p \in {<<2, 1>>, <<FileLen - 1, 1>>, <<FileLen, 1>>}}

H(k) == IF Shared THEN 0 ELSE k
Active == {k \in J : pc[k] \notin {"todo", "done", "err"}}

Init == /\ job \in [J -> JobSet]
        /\ pc = [k \in J |-> "todo"]
        /\ pos = [k \in 0..Jobs |-> 0]
        /\ got = [k \in J |-> [data |-> <<>>, pal |-> <<>>]]
        /\ result = <<>>

Open(k) == /\ pc[k] = "todo" /\ Cardinality(Active) < Threads
           /\ pc' = [pc EXCEPT ![k] = "seekd"]
           /\ pos' = [pos EXCEPT ![H(k)] = 0]
           /\ UNCHANGED <<job, got, result>>
Seek(k, at, to, next) ==
  /\ pc[k] = at /\ pc' = [pc EXCEPT ![k] = next]
  /\ pos' = [pos EXCEPT ![H(k)] = to]
  /\ UNCHANGED <<job, got, result>>
\* one delivery of up to the missing number of bytes
Read(k, at, field, want, next) ==
  /\ pc[k] = at
  /\ LET have == Len(got[k][field])
         left == FileLen - pos[H(k)]
         most == IF left < want - have THEN left ELSE want - have
     IN IF most <= 0
        THEN pc' = [pc EXCEPT ![k] = "err"] /\ UNCHANGED <<pos, got>>
        ELSE \E n \in (IF Stops THEN 1..most ELSE {most}) :
               /\ got' = [got EXCEPT ![k][field] = @ \o SubSeq(File, pos[H(k)] + 1, pos[H(k)] + n)]
               /\ pos' = [pos EXCEPT ![H(k)] = @ + n]
               /\ pc' = [pc EXCEPT ![k] = IF have + n = want THEN next ELSE at]
  /\ UNCHANGED <<job, result>>
Step(k) == \/ Open(k)
           \/ Seek(k, "seekd", job[k].data[1], "data")
           \/ Read(k, "data", "data", job[k].data[2], "seekp")
           \/ Seek(k, "seekp", job[k].pal[1], "pal")
           \/ Read(k, "pal", "pal", job[k].pal[2], "done")
Collect == /\ result = <<>> /\ \A k \in J : pc[k] \in {"done", "err"}
           /\ result' = IF \E k \in J : pc[k] = "err"
                        THEN <<"err", CHOOSE k \in J : pc[k] = "err" /\ \A i \in J : pc[i] = "err" => k <= i>>
                        ELSE <<"ok", got>>
           /\ UNCHANGED <<job, pc, pos, got>>
Next == Collect \/ \E k \in J : Step(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* reading one texture after the other
Sequential ==
  LET r == [k \in J |-> RunJob(File, job[k])] IN
  IF \E k \in J : ~r[k].ok
  THEN <<"err", CHOOSE k \in J : ~r[k].ok /\ \A i \in J : ~r[i].ok => k <= i>>
  ELSE <<"ok", [k \in J |-> [data |-> r[k].data, pal |-> r[k].pal[1]]]>>
SameAsSequential == result # <<>> => result = Sequential
Ends == <>(result # <<>>)
=============================================================================
