------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client library: which request every call makes, with which fields,  *)
(* on which server, and what it returns.                                   *)
(*                                                                         *)
(* split   the master is another server than the configured one            *)
(* wr      something was modified, so the connection is to the master      *)
(*                                                                         *)
(* A request is described by the set of its fields that are set, as pairs  *)
(* of path and value.  A call c carries, besides its arguments, the reply  *)
(* that the servers give: code, ids, subs, strs (key, index, value), kvs   *)
(* (key, values with index), token.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LZ(split) == [split |-> split, wr |-> FALSE]

Reads == {"AuthEntity", "AuthGetToken", "AuthValidateToken", "EntityInfo", "EntitySearch", "EntityKVGet", "EntityGroups",
          "GroupInfo", "GroupKVGet", "GroupMembers", "GroupSearch", "SystemPing", "SystemStatus"}
Mixed == {"EntityUM", "GroupUM", "EntityKeys"}
Actions == {"ADD", "DROP", "UPSERT", "CLEAREXACT", "CLEARFUZZY", "READ"}
RuleActions == {"INCLUDE", "EXCLUDE", "REMOVE_RULE"}
Caps == {"GLOBAL_ROOT", "CREATE_ENTITY", "DESTROY_ENTITY", "MODIFY_ENTITY_META", "MODIFY_ENTITY_KEYS", "CHANGE_ENTITY_SECRET",
         "LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP", "DESTROY_GROUP", "MODIFY_GROUP_META", "MODIFY_GROUP_MEMBERS"}

(* can is the action as the protocol spells it, "" if there is none *)
Valid(c) == CASE c.op \in Mixed -> c.can \in Actions
              [] c.op = "GroupUpdateRules" -> c.can \in RuleActions
              [] c.op = "SystemCapabilities" -> c.can \in Actions /\ c.ccap \in Caps
              [] OTHER -> TRUE
IsRead(c) == c.op \in Reads \/ (c.op \in Mixed /\ c.can = "READ")

Idx(p, vals) == UNION {{<<p \o "[" \o ToString(j - 1) \o "].Value", vals[j]>>, <<p \o "[" \o ToString(j - 1) \o "].Index", ToString(j - 1)>>} : j \in 1..Len(vals)}
Opt(c, f, path) == IF f \in DOMAIN c THEN {<<path, c[f]>>} ELSE {}
Fields(c) ==
  CASE c.op \in {"AuthEntity", "AuthGetToken"} -> {<<"Entity.ID", c.id>>, <<"Secret", c.sec>>}
    [] c.op = "AuthValidateToken" -> {<<"Token", c.val>>}
    [] c.op = "AuthChangeSecret" -> {<<"Entity.ID", c.id>>, <<"Entity.secret", c.old>>, <<"Secret", c.sec>>}
    [] c.op = "EntityCreate" -> {<<"Entity.ID", c.id>>, <<"Entity.secret", c.sec>>, <<"Entity.Number", ToString(c.num)>>}
    [] c.op = "EntityUpdate" -> {<<"Data.ID", c.id>>} \cup {<<"Data.meta." \o c.meta[j][1], c.meta[j][2]>> : j \in 1..Len(c.meta)}
    [] c.op \in {"EntityInfo", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups"} -> {<<"Entity.ID", c.id>>}
    [] c.op \in {"EntitySearch", "GroupSearch"} -> {<<"expression", c.expr>>}
    [] c.op \in Mixed -> {<<"Target", c.id>>, <<"Action", c.can>>, <<"Key", c.key>>, <<"Value", c.val>>}
    [] c.op \in {"EntityKVGet", "EntityKVDel", "GroupKVGet", "GroupKVDel"} -> {<<"Target", c.id>>, <<"Data.Key", c.key>>}
    [] c.op \in {"EntityKVAdd", "EntityKVReplace", "GroupKVAdd", "GroupKVReplace"} -> {<<"Target", c.id>>, <<"Data.Key", c.key>>} \cup Idx("Data.Values", c.vals)
    [] c.op = "GroupCreate" -> {<<"Group.Name", c.id>>, <<"Group.DisplayName", c.dn>>, <<"Group.ManagedBy", c.mb>>, <<"Group.Number", ToString(c.num)>>}
    [] c.op = "GroupUpdate" -> {<<"Group.Name", c.id>>} \cup Opt(c, "dn", "Group.DisplayName") \cup Opt(c, "mb", "Group.ManagedBy")
    [] c.op \in {"GroupInfo", "GroupDestroy", "GroupMembers"} -> {<<"Group.Name", c.id>>}
    [] c.op = "GroupUpdateRules" -> {<<"Group.Name", c.id>>, <<"Target.Name", c.tgt>>, <<"RuleAction", c.can>>}
    [] c.op \in {"GroupAddMember", "GroupDelMember"} -> {<<"Entity.ID", c.id>>, <<"Entity.meta.Groups[0]", c.tgt>>}
    [] c.op = "SystemCapabilities" -> {<<"Target", c.id>>, <<"Action", c.can>>, <<"Capability", c.ccap>>, <<"Direct", IF c.direct THEN "true" ELSE "false">>}
    [] OTHER -> {}

AnyFields == {<<"*", "*">>}
(* The requests of a call: that which it is named after and, for           *)
(* information about a group, a search for the groups it manages.          *)
Requests(c) ==
  IF ~Valid(c) THEN <<>>
  ELSE <<[rpc |-> c.op, fields |-> Fields(c)]>>
       \o (IF c.op = "GroupInfo" /\ c.code = "OK" THEN <<[rpc |-> "GroupSearch", fields |-> AnyFields]>> ELSE <<>>)

Where(s, c) == IF s.split /\ (s.wr \/ ~IsRead(c)) THEN "master" ELSE "server"
Result(c) == IF ~Valid(c) THEN "Unknown" ELSE c.code
ClientRun(s, c) == {[S |-> [s EXCEPT !.wr = @ \/ (s.split /\ ~IsRead(c))], res |-> Result(c), at |-> Where(s, c)]}

(* ---- what is returned ---- *)
Ids(c) == IF c.code = "OK" /\ "ids" \in DOMAIN c THEN c.ids ELSE <<>>
(* the groups that the search finds and that are managed by this one       *)
Subs(c) == IF c.code2 /= "OK" THEN <<>>
           ELSE LET q == SelectSeq(c.subs, LAMBDA x : x[2] = c.id) IN [j \in 1..Len(q) |-> q[j][1]]
(* values of key k in the triples ts of key, index and value, by index *)
OfKey(ts, k) == {j \in 1..Len(ts) : ts[j][1] = k}
IsOrdered(vs, ts, k) ==
  LET J == OfKey(ts, k)
      IdxOf(v) == ts[CHOOSE j \in J : ts[j][3] = v][2]
  IN /\ Len(vs) = Cardinality(J)
     /\ {vs[j] : j \in 1..Len(vs)} = {ts[j][3] : j \in J}
     /\ \A j \in 1..Len(vs) - 1 : IdxOf(vs[j]) <= IdxOf(vs[j + 1])
IsMap(kv, ts) ==
  /\ {kv[j][1] : j \in 1..Len(kv)} = {ts[j][1] : j \in 1..Len(ts)}
  /\ \A j \in 1..Len(kv) : IsOrdered(kv[j][2], ts, kv[j][1])
Only(ts, k) == SelectSeq(ts, LAMBDA t : t[1] = k)
Renamed(ts, k) == [j \in 1..Len(ts) |-> <<k, ts[j][2], ts[j][3]>>]
RECURSIVE Flat(_)
Flat(kvs) == IF kvs = <<>> THEN <<>> ELSE [j \in 1..Len(kvs[1][2]) |-> <<kvs[1][1], kvs[1][2][j][2], kvs[1][2][j][1]>>] \o Flat(Tail(kvs))
(* the key asked for may be spelled in another way (with an index, in      *)
(* lower case); base is the name under which the server knows it           *)
KVOf(c) ==
  IF c.code /= "OK" \/ ~Valid(c) THEN <<>>
  ELSE CASE c.op \in {"EntityKVGet", "GroupKVGet"} -> Flat(c.kvs)
         [] c.op \in Mixed /\ c.can = "READ" -> IF c.key = "*" THEN c.strs ELSE Renamed(Only(c.strs, c.base), c.key)
         [] OTHER -> <<>>
=============================================================================
