------------------------------- MODULE Health -------------------------------
(***************************************************************************)
(* The status of the system.                                               *)
(*                                                                         *)
(* regs  registered names and the check that is asked for each; the first  *)
(*       registration of a name stays                                      *)
(* now   what each check currently answers: <<passing, name, message>>     *)
(* key   what the check of the token service looks at                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bags

JWT == "JWT-RSA"
JwtChk == "!jwt"
Quiet == <<FALSE, "", "">>
HZ == [regs |-> [n \in {} |-> ""], now |-> [c \in {} |-> Quiet],
       key |-> [pub |-> -1, priv |-> -1]]

ResultOf(s, c) == IF c \in DOMAIN s.now THEN s.now[c] ELSE Quiet
(* the token service works while its key files are there with the right
   permissions; its message is its own affair *)
JwtOK(s) == s.key.pub = 420 /\ s.key.priv = 256
JwtName == "TKN_JWT-RSA"

Passing(s, n) == IF s.regs[n] = JwtChk THEN JwtOK(s) ELSE ResultOf(s, s.regs[n])[1]
Healthy(s) == \A n \in DOMAIN s.regs : Passing(s, n)
(* each registered check once; messages of the token service left out *)
Listed(s) == LET f == [n \in DOMAIN s.regs |-> IF s.regs[n] = JwtChk THEN <<JwtOK(s), JwtName, "">> ELSE ResultOf(s, s.regs[n])] IN
             [x \in {f[n] : n \in DOMAIN f} |-> Cardinality({n \in DOMAIN f : f[n] = x})]
Failing(s) == {x \in DOMAIN Listed(s) : ~x[1]}

O(s, res) == [S |-> s, res |-> res, ok |-> TRUE, subs |-> [x \in {} |-> 0], first |-> {}]

(* one outcome for each failing check that may be named first *)
Report(s) == LET r == [O(s, "OK") EXCEPT !.ok = Healthy(s), !.subs = Listed(s)] IN
             IF Failing(s) = {} THEN {r} ELSE {[r EXCEPT !.first = {x}] : x \in Failing(s)}

HealthRun(s, c) ==
  CASE c.op = "Register" -> {O(IF c.name \in DOMAIN s.regs THEN s ELSE [s EXCEPT !.regs = (c.name :> c.chk) @@ @], "OK")}
    [] c.op = "Set" -> {O([s EXCEPT !.now = (c.chk :> c.v) @@ @], "OK")}
    [] c.op = "Jwt" -> {O([s EXCEPT !.regs = IF JWT \in DOMAIN @ THEN @ ELSE (JWT :> JwtChk) @@ @, !.key = [pub |-> 420, priv |-> 256]], "OK")}
    [] c.op = "Mode" -> {O(IF c.file = "token.pem" THEN [s EXCEPT !.key.pub = c.mode] ELSE [s EXCEPT !.key.priv = c.mode], "OK")}
    [] c.op = "Ping" -> {O(s, "OK")}
    [] c.op \in {"Status", "Local"} -> Report(s)
=============================================================================
