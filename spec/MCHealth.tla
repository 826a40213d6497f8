------------------------------ MODULE MCHealth ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Names, Chks, Msgs, WithJwt, Export
VARIABLES S, last
INSTANCE Health
MCalls(s) ==
  [op : {"Register"}, name : Names, chk : Chks]
  \cup {[op |-> "Set", chk |-> k, v |-> <<b, n, m>>] : k \in Chks, b \in BOOLEAN, n \in Msgs, m \in Msgs}
  \cup [op : {"Ping", "Status", "Local"}]
  \cup (IF WithJwt
        THEN (IF s.key.pub = -1 /\ JWT \notin DOMAIN s.regs THEN {[op |-> "Jwt"]} ELSE {})
             \cup (IF JWT \in DOMAIN s.regs THEN [op : {"Mode"}, file : {"token.pem", "token.key"}, mode : {-1, 420, 256, 438}] ELSE {})
        ELSE {})
MRun(s, c) == HealthRun(s, c)
INSTANCE MCKit WITH Init0 <- HZ, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>
C31 == [][last'.c.op \in {"Status", "Local"} =>
           /\ last'.r.ok = (last'.r.first = {})
           /\ last'.r.ok = (\A x \in DOMAIN last'.r.subs : x[1])
           /\ \A x \in last'.r.first : ~x[1] /\ x \in DOMAIN last'.r.subs]_<<S, last>>
C31First == [][\A n \in DOMAIN S.regs : S'.regs[n] = S.regs[n]]_<<S, last>>
=============================================================================
