------------------------------ MODULE TraceCli ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Cli
Set(q) == {q[j] : j \in 1..Len(q)}
GoodRequest(s, c, q, want) ==
  /\ q.rpc = want.rpc
  /\ (want.fields = AnyFields \/ Set(q.fields) = want.fields)
  /\ (s.split /\ c.op \notin Local /\ ~IsRead(c) /\ want.rpc = c.op => q.at = "master")
  /\ (~s.split => q.at = "server")
  /\ Set(q.cn) = {"the-client"} /\ Set(q.sn) = {"netauth"}
  /\ Set(q.auth) = want.auth
Good(s, L) ==
  LET want == CliRequests(s, L)
      r == CHOOSE x \in CliRun(s, L) : TRUE IN
  /\ L.res = r.res
  /\ Len(L.reqs) = Len(want)
  /\ \A j \in 1..Len(want) : GoodRequest(s, L, L.reqs[j], want[j])
  /\ (L.res = "OK" /\ L.op \in Lists => L.shown = Shown(L))
  /\ (L.res = "OK" /\ (L.op \in {"EntityKVGet", "GroupKVGet"} \/ (L.op \in Mixed /\ L.can = "READ")) => IsMap(L.okv, KVOf(Call(s, L))))
TJudge(s, L) ==
  CASE L.op = "CRASH" -> [tags |-> {"C37"}, S |-> s]
    [] OTHER -> [tags |-> IF Good(s, L) THEN {} ELSE {"C37"}, S |-> (CHOOSE r \in CliRun(s, L) : TRUE).S]
TZero(L) == IZ("backend" \in DOMAIN L /\ L.backend = "split")
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
