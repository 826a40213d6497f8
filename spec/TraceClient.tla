---------------------------- MODULE TraceClient -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Client
Set(q) == {q[j] : j \in 1..Len(q)}
(* requests that change nothing may go to either server *)
GoodRequest(s, c, q, want) ==
  /\ q.rpc = want.rpc
  /\ IF want.fields = {<<"*", "*">>} THEN TRUE ELSE Set(q.fields) = want.fields
  /\ (s.split /\ ~IsRead(c) => q.at = "master")
  /\ (~s.split => q.at = "server")
  /\ Set(q.cn) = {"the-client"} /\ Set(q.sn) = {"the-service"}
  /\ q.auth = (IF c.tok = "" THEN <<>> ELSE <<c.tok>>)
Good(s, L) ==
  LET want == Requests(L) IN
  /\ L.res = Result(L)
  /\ Len(L.reqs) = Len(want)
  /\ \A j \in 1..Len(want) : GoodRequest(s, L, L.reqs[j], want[j])
  /\ IF L.res /= "OK" THEN L.oids = <<>> /\ L.okv = <<>> /\ L.otok = ""
     ELSE /\ L.oids = Ids(L)
          /\ (L.op = "GroupInfo" => L.osubs = Subs(L))
          /\ IsMap(L.okv, KVOf(L))
          /\ L.otok = (IF L.op = "AuthGetToken" THEN L.token ELSE "")
TJudge(s, L) ==
  CASE L.op = "CRASH" -> [tags |-> {"C32"}, S |-> s]
    [] OTHER -> [tags |-> IF Good(s, L) THEN {} ELSE {"C32"}, S |-> (CHOOSE r \in ClientRun(s, L) : TRUE).S]
TZero(L) == LZ("backend" \in DOMAIN L /\ L.backend = "split")
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
