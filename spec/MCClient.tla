------------------------------ MODULE MCClient ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Args, Split, Codes, Export
VARIABLES S, last
INSTANCE Client
(* arguments are classes that the replay spells out *)
Ops == Reads \cup Mixed \cup {"AuthChangeSecret", "EntityCreate", "EntityUpdate", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityDestroy",
       "EntityLock", "EntityUnlock", "GroupCreate", "GroupUpdate", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
       "GroupAddMember", "GroupDelMember", "GroupDestroy", "SystemCapabilities"}
Acts(op) == CASE op \in Mixed \cup {"SystemCapabilities"} -> Actions \cup {""}
              [] op = "GroupUpdateRules" -> RuleActions \cup {""}
              [] OTHER -> {"-"}
MCalls(s) == UNION {[op : {o}, can : Acts(o), id : Args, ccap : {"LOCK_ENTITY"}, code : Codes, tok : {"", "t"}] : o \in Ops}
MRun(s, c) == ClientRun(s, c)
INSTANCE MCKit WITH Init0 <- LZ(Split), Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>
(* what modifies something goes to the master, whatever came before *)
C32 == [][LET c == last'.c IN
          /\ (~IsRead(c) => last'.r.at = (IF S.split THEN "master" ELSE "server"))
          /\ (S.wr => S'.wr)]_<<S, last>>
=============================================================================
