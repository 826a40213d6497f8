----------------------------- MODULE TraceAgree -----------------------------
(***************************************************************************)
(* The same requests to servers over different backends: a line holds what *)
(* each server answered and changed, in a canonical order.  The specified  *)
(* behaviour (NetAuth.tla) does not depend on the backend.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
AllSame(q) == \A j, k \in DOMAIN q : q[j] = q[k]
TJudge(s, L) == [S |-> s, tags |-> IF AllSame(L.ress) /\ AllSame(L.outs) /\ AllSame(L.chgs) THEN {} ELSE {"C25"}]
TZero(L) == 0
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
