------------------------------ MODULE Determinism ------------------------------
(* Repeated processing: the scene is a function of map and configuration.    *)
(* A history of runs is a sequence of [input, result]; the machine remembers *)
(* the first result of every input.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES memory       \* input -> result, for the inputs seen so far
Forget == memory = <<>>
Seen(inp) == inp \in DOMAIN memory
MayRun(inp, result) == Seen(inp) => memory[inp] = result
Run(inp, result) ==
  /\ MayRun(inp, result)
  /\ memory' = IF Seen(inp) THEN memory ELSE (inp :> result) @@ memory
=============================================================================
