----------------------------- MODULE TraceCache -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Cache
Same(L, r) == L.res = r.res /\ (L.op = "Get" => L.val = r.val)
Files(s, L) == L.outside = 0 /\ L.loose <= Cardinality(s.loose)
(* concurrent use of one instance, each branch on owners of its own *)
JudgePar(s, L) ==
  LET RECURSIVE Walk(_, _, _)
      Walk(b, j, X) == IF j > Len(b) THEN X
                       ELSE LET r == CHOOSE r \in CacheRun(X.S, b[j]) : TRUE IN
                            Walk(b, j + 1, [S |-> r.S, bad |-> X.bad \/ ~Same(b[j], r)])
      RECURSIVE All(_, _)
      All(k, X) == IF k > Len(L.branches) THEN X ELSE All(k + 1, Walk(L.branches[k], 1, X))
      X == All(1, [S |-> s, bad |-> FALSE])
  IN [tags |-> IF X.bad \/ ~Files(X.S, L) THEN {"C33"} ELSE {}, S |-> X.S]
TJudge(s, L) ==
  CASE L.op = "CRASH" -> [tags |-> {"C33"}, S |-> s]
    [] L.op = "Par" -> JudgePar(s, L)
    [] OTHER -> LET r == CHOOSE r \in CacheRun(s, L) : TRUE IN
                [tags |-> IF Same(L, r) /\ Files(r.S, L) THEN {} ELSE {"C33"}, S |-> r.S]
TZero(L) == CZ("backend" \in DOMAIN L /\ L.backend = "fs")
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
