----------------------------- MODULE TraceCopy ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Copy
KV(l) == [k \in {<<l[j][1], l[j][2]>> : j \in DOMAIN l} |-> l[CHOOSE j \in DOMAIN l : <<l[j][1], l[j][2]>> = k][3]]
Exact(l, f) == KV(l) = f /\ Len(l) = Cardinality(DOMAIN f)
Call(c) == IF "k" \in DOMAIN c THEN [c EXCEPT !.k = <<c.k[1], c.k[2]>>] ELSE c
Seen(L) == [b \in Stores |-> KV(L[b])]
All(L, s) == "sterr" \notin DOMAIN L /\ \A b \in Stores : Exact(L[b], s[b])
JudgeFault(s, L) ==
  LET complete == \E r \in CopyRun(s, L) : All(L, r.S)
      ok == /\ "sterr" \notin DOMAIN L
            /\ Exact(L[L.src], s[L.src])
            /\ (IF L.dry THEN Exact(L[L.dst], s[L.dst]) ELSE MayBe(s, L, KV(L[L.dst])))
            \* each refusal costs one record at most; giving up is
            \* for before anything has changed
            /\ (L.kill \/ L.dry \/ (IF L.res # "OK" THEN Exact(L[L.dst], s[L.dst])
                             \* (the bitcask library goes on failing after a failed write)
                             ELSE L.kv => Cardinality({k \in DOMAIN KV(L[L.dst]) \cup DOMAIN Copied(s, L) :
                                                ~(k \in DOMAIN KV(L[L.dst]) /\ k \in DOMAIN Copied(s, L) /\ KV(L[L.dst])[k] = Copied(s, L)[k])}) <= L.hits))
            \* what is incomplete is said to be
            /\ (complete \/ L.res # "OK" \/ L.said)
  IN [tags |-> IF ok THEN {} ELSE {"C34"}, S |-> Seen(L)]
TJudge(s, L) ==
  CASE L.op = "CRASH" -> [tags |-> {"C34"}, S |-> s]
    [] L.op = "Copy" /\ "inject" \in DOMAIN L -> JudgeFault(s, L)
    [] OTHER -> LET rs == CopyRun(s, Call(L))
                    ok == {r \in rs : r.res = L.res \/ (L.op = "Del" /\ L.res = "NOVALUE")}
                IN [tags |-> IF \E r \in ok : All(L, r.S) THEN {} ELSE IF L.op = "Copy" THEN {"C34"} ELSE {"C25"}, S |-> Seen(L)]
TZero(L) == KZ
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
