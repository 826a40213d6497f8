------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Judging a recorded trace line by line.  Judge(s, L) says, for the state  *)
(* s of the specification before the line, which properties the line       *)
(* violates and which state follows.  Lines that violate something are     *)
(* reported and the run continues.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
\* KitLines is defined in the root module, where TLC evaluates it only once
CONSTANTS Zero(_), Judge(_, _), KitLines
VARIABLES i, S, nbad

KitStep ==
  LET L == KitLines[i] IN
  IF L.op = "Reset" THEN S' = Zero(L) /\ nbad' = nbad
  ELSE LET r == Judge(S, L) IN
       /\ IF r.tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> r.tags]))
       /\ nbad' = nbad + (IF r.tags = {} THEN 0 ELSE 1)
       /\ S' = r.S

KitInit == i = 2 /\ S = Zero([op |-> "Reset"]) /\ nbad = 0
KitNext == i <= Len(KitLines) /\ KitStep /\ i' = i + 1
KitFinished == i = Len(KitLines) + 1 => PrintT("JUDGED " \o ToJson([lines |-> Len(KitLines) - 1, bad |-> nbad]))
=============================================================================
