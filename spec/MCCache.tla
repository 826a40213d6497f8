------------------------------ MODULE MCCache -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Owners, Toks, Insts, Shared, Export
VARIABLES S, last
INSTANCE Cache
MCalls(s) == [op : {"Put"}, inst : Insts, o : Owners, t : Toks] \cup [op : {"Get", "Del"}, inst : Insts, o : Owners]
             \cup [op : {"New"}, inst : Insts] \cup {[op |-> "Loosen"]}
MRun(s, c) == CacheRun(s, c)
INSTANCE MCKit WITH Init0 <- CZ(Shared), Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>
C33 == [][LET c == last'.c IN
          /\ (c.op = "Put" => S'.kv[At(S, c)] = c.t)
          /\ (c.op \in {"Put", "Del"} => \A x \in DOMAIN S.kv \ {At(S, c)} : x \in DOMAIN S'.kv /\ S'.kv[x] = S.kv[x])
          /\ (c.op = "Get" => S'.kv = S.kv)]_<<S, last>>
C33Files == [][last'.c.op = "Put" => last'.c.o \notin S'.loose]_<<S, last>>
=============================================================================
