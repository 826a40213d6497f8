------------------------------- MODULE MCCli --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Who, Split, Export
VARIABLES S, last
INSTANCE Cli
Ops == (Reads \ {"AuthGetToken"}) \cup Mixed \cup Local
       \cup {"AuthChangeSecret", "EntityCreate", "EntityUpdate", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityDestroy",
       "EntityLock", "EntityUnlock", "GroupCreate", "GroupUpdate", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
       "GroupAddMember", "GroupDelMember", "GroupDestroy", "SystemCapabilities"}
Acts(op) == CASE op \in {"EntityUM", "GroupUM"} -> {"READ", "UPSERT", "CLEAREXACT", "CLEARFUZZY"}
              [] op = "EntityKeys" -> {"READ", "ADD", "DROP"}
              [] op = "GroupUpdateRules" -> RuleActions
              [] op = "SystemCapabilities" -> {"ADD", "DROP"}
              [] OTHER -> {"-"}
(* the label of a token is that of its owner here, so that there are few states *)
MCalls(s) == UNION {[op : {o}, can : Acts(o), who : Who, code : {"OK", "NotFound"}, tcode : {"OK", "Unauthenticated"}, life : {"long", "short"}] : o \in Ops}
MRun(s, c) == CliRun(s, c @@ [new |-> "t"])
INSTANCE MCKit WITH Init0 <- IZ(Split), Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>
(* the secret is only sent if there is no valid token, and a token only to *)
(* requests of the entity that it was issued to                            *)
C37 == [][LET c == last'.c IN
          /\ (last'.r.asks => c.op = "GetToken" \/ (NeedsToken(c) /\ ~Cached(S, c)))
          /\ (\A w \in DOMAIN S.tok \ {c.who} : w \in DOMAIN S'.tok /\ S'.tok[w] = S.tok[w])
          /\ (IsRead(c) /\ ~NeedsToken(c) => S' = S)]_<<S, last>>
=============================================================================
