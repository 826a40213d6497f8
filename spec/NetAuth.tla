------------------------------ MODULE NetAuth ------------------------------
(***************************************************************************)
(* The specification of NetAuth: what every request does to the stored     *)
(* entities and groups, who may make it, and what it answers.              *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   e     entity ID  -> entity record                                     *)
(*   g     group name -> group record                                      *)
(*   ro    whether the server runs read-only                               *)
(*   toks  token name -> claims [id, caps] of every token issued so far    *)
(* A call is a record with a field op naming the request, and arguments.   *)
(*                                                                         *)
(* The module contains no variables: the model checking modules (MC...)    *)
(* explore it with their own, and Trace.tla judges recorded executions of  *)
(* the real server with exactly the same operators.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Base(_),     \* an untyped metadata key without its {n} indexes
          Upper(_),    \* a key type in upper case
          BadName(_),  \* identifiers that cannot name a record
          Colon(_)     \* texts with the separator of keys and values

ROOT == "GLOBAL_ROOT"

Range(s) == {s[i] : i \in DOMAIN s}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(c, k, d)  == IF k \in DOMAIN c THEN c[k] ELSE d

NewEnt(n, s) == [num |-> n, sec |-> s, lk |-> FALSE, caps |-> {}, gr |-> {},
                 keys |-> {}, um |-> {}, kv |-> {}, meta |-> {}]
NewGrp(n, d, m) == [num |-> n, dn |-> d, mb |-> m, caps |-> {}, rules |-> {},
                    um |-> {}, kv |-> {}]

(* sets of pairs used as maps *)
Keys(m)       == {p[1] : p \in m}
Upd(m, k, v)  == {p \in m : p[1] # k} \cup {<<k, v>>}
Rem(m, k)     == {p \in m : p[1] # k}

(***************************************************************************)
(* Effective membership                                                    *)
(***************************************************************************)
RECURSIVE MemR(_, _, _, _)
MemR(S, x, g, seen) ==
  /\ g \in DOMAIN S.g
  /\ g \notin seen
  /\ \/ g \in S.e[x].gr
     \/ \E r \in S.g[g].rules : r[1] = "INCLUDE" /\ MemR(S, x, r[2], seen \cup {g})
  /\ \A r \in S.g[g].rules : r[1] = "EXCLUDE" => ~MemR(S, x, r[2], seen \cup {g})
Mem(S, x, g)  == x \in DOMAIN S.e /\ MemR(S, x, g, {})
Groups(S, x)  == {g \in DOMAIN S.g : Mem(S, x, g)}
Members(S, g) == {x \in DOMAIN S.e : Mem(S, x, g)}

CapsOf(S, x) == S.e[x].caps \cup UNION {S.g[g].caps : g \in Groups(S, x)}

(* groups that rule chains from g lead to, existing or not; g itself only if
   there is a cycle *)
RECURSIVE ReachR(_, _, _)
ReachR(S, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION {{r[2] : r \in S.g[h].rules} : h \in todo \cap DOMAIN S.g} \ seen
       IN ReachR(S, nxt, seen \cup nxt)
Reach(S, g) == ReachR(S, {g}, {})

(***************************************************************************)
(* Authority                                                               *)
(***************************************************************************)
MutatingEnt == {"EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel",
                "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock"}
MutatingGrp == {"GroupCreate", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel",
                "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember",
                "GroupDestroy"}

Bad(c) == \/ c.op \in {"EntityUM", "GroupUM"} /\ c.act \notin {"READ", "UPSERT", "CLEARFUZZY", "CLEAREXACT"}
          \/ c.op = "EntityKeys" /\ c.act \notin {"READ", "ADD", "DROP"}
          \/ c.op \in {"EntityUM", "GroupUM"} /\ c.act # "READ" /\ Colon(c.key)
          \/ c.op = "EntityKeys" /\ c.act # "READ" /\ Colon(c.typ)

Mutating(c) == IF c.op \in {"EntityUM", "GroupUM", "EntityKeys"} THEN c.act # "READ"
               ELSE \/ c.op \in MutatingEnt \cup MutatingGrp
                    \/ c.op \in {"AuthChangeSecret", "SystemCapabilities"}

Need(op) ==
  CASE op = "EntityCreate" -> "CREATE_ENTITY"
    [] op = "EntityDestroy" -> "DESTROY_ENTITY"
    [] op \in {"EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace"} -> "MODIFY_ENTITY_META"
    [] op = "EntityKeys" -> "MODIFY_ENTITY_KEYS"
    [] op = "EntityLock" -> "LOCK_ENTITY"
    [] op = "EntityUnlock" -> "UNLOCK_ENTITY"
    [] op = "AuthChangeSecret" -> "CHANGE_ENTITY_SECRET"
    [] op = "GroupCreate" -> "CREATE_GROUP"
    [] op = "GroupDestroy" -> "DESTROY_GROUP"
    [] op \in {"GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules"} -> "MODIFY_GROUP_META"
    [] op \in {"GroupAddMember", "GroupDelMember"} -> "MODIFY_GROUP_MEMBERS"
    [] OTHER -> ROOT

Delegable == {"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"}

(* the credentials of a call: none, bad, or ok *)
Cred(S, c) ==
  IF "tk" \in DOMAIN c THEN c.tk
  ELSE IF c.tok \in {"", "!empty"} THEN "none"
  ELSE IF c.tok \in DOMAIN S.toks THEN "ok" ELSE "bad"
Claims(S, c) == S.toks[c.tok]
Holds(S, c, cap) == Claims(S, c).caps \cap {cap, ROOT} # {}

Delegated(S, id, g) == /\ g \in DOMAIN S.g
                       /\ S.g[g].mb # ""
                       /\ Mem(S, id, S.g[g].mb)

(* why a modifying call is refused for lack of authority; "" if it is not *)
PreErr(S, c) ==
  IF S.ro THEN "Unimplemented"
  ELSE IF Cred(S, c) = "none" THEN "InvalidArgument"
  ELSE IF Cred(S, c) = "bad" THEN "Unauthenticated"
  ELSE IF Holds(S, c, Need(c.op)) THEN "" ELSE "PermissionDenied"

Authentic(S, id, s) == id \in DOMAIN S.e /\ ~S.e[id].lk /\ S.e[id].sec = s

(* with the exceptions: one's own keys and secret, delegated management *)
AuthErr(S, c) ==
  LET p == PreErr(S, c) IN
  IF c.op = "AuthChangeSecret" /\ p \in {"", "PermissionDenied"} /\ Claims(S, c).id = c.id
  THEN IF Authentic(S, c.id, c.old) THEN "" ELSE "Unauthenticated"
  ELSE IF p = "PermissionDenied" /\ c.op = "EntityKeys" /\ Claims(S, c).id = c.id THEN ""
  ELSE IF p = "PermissionDenied" /\ c.op \in Delegable \ {"GroupAddMember", "GroupDelMember"}
          /\ Delegated(S, Claims(S, c).id, c.g) THEN ""
  ELSE p

(***************************************************************************)
(* Effects.  Eff(S, c, n) is the outcome of a call that has the authority  *)
(* it needs: [ok, S] if it succeeds, or [err] naming the admissible        *)
(* errors.  n is the number an automatic assignment yields.                *)
(***************************************************************************)
OTHER_ERR == {"Internal", "NotFound", "AlreadyExists", "InvalidArgument", "FailedPrecondition", "Unknown"}
OK(S)   == [ok |-> TRUE, S |-> S, err |-> {}]
ERR(es) == [ok |-> FALSE, S |-> 0, err |-> es]

SetE(S, id, r) == [S EXCEPT !.e = With(S.e, id, r)]
SetG(S, g, r)  == [S EXCEPT !.g = With(S.g, g, r)]

Numbers(f) == {f[x].num : x \in DOMAIN f}
NumOK(f, n) == n > 0 /\ n \notin Numbers(f)

Merge(meta, new) == {p \in meta : p[1] \notin Keys(new)} \cup {p \in new : p[2] # ""}

UMEdit(um, c) ==
  CASE c.act = "UPSERT" -> Upd(um, c.key, c.val)
    [] c.act = "CLEAREXACT" -> Rem(um, c.key)
    [] c.act = "CLEARFUZZY" -> {p \in um : Base(p[1]) # Base(c.key)}
    [] OTHER -> um
UMRead(um, c) == IF c.key = "*" THEN um ELSE {p \in um : Base(p[1]) = Base(c.key)}

KeyEdit(keys, c) ==
  LET t == Upper(c.typ) IN
  CASE c.act = "ADD" -> keys \cup {<<t, c.key>>}
    [] c.act = "DROP" -> {p \in keys : ~((t = "" \/ p[1] = t) /\ (c.key = "" \/ p[2] = c.key))}
    [] OTHER -> keys

KVRead(kv, k) == IF k = "*" THEN kv ELSE {p \in kv : p[1] = k}

RuleErr(S, c) ==   \* refused although all groups are known
  \/ c.act # "REMOVE_RULE"
     /\ \/ \E r \in S.g[c.g].rules : r[2] = c.tgt
        \/ c.g = c.tgt
        \/ c.g \in Reach(S, c.tgt)
CreatesCycle(S, c) == c.act # "REMOVE_RULE" /\ (c.g = c.tgt \/ c.g \in Reach(S, c.tgt))
DanglingReach(S, g) == Reach(S, g) \ DOMAIN S.g # {}

EffE(S, c, n) ==
  LET id == c.id
      R == S.e[id]
      Set(r) == OK(SetE(S, id, r))
  IN
  IF c.op = "EntityCreate" THEN
    IF id \in DOMAIN S.e THEN ERR({"AlreadyExists"})
    ELSE IF BadName(id) THEN ERR(OTHER_ERR)
    ELSE Set(NewEnt(IF c.num = -1 THEN n ELSE c.num, c.sec))
  ELSE IF c.op = "AuthChangeSecret" THEN
    IF id \notin DOMAIN S.e THEN ERR(OTHER_ERR) ELSE Set([R EXCEPT !.sec = c.sec])
  ELSE IF id \notin DOMAIN S.e THEN ERR({"NotFound"})
  ELSE CASE c.op = "EntityUpdate" -> Set([R EXCEPT !.meta = Merge(R.meta, Range(c.meta))])
    [] c.op = "EntityUM" -> Set([R EXCEPT !.um = UMEdit(R.um, c)])
    [] c.op = "EntityKeys" -> Set([R EXCEPT !.keys = KeyEdit(R.keys, c)])
    [] c.op = "EntityKVAdd" ->
         IF c.key \in Keys(R.kv) THEN ERR({"AlreadyExists"}) ELSE Set([R EXCEPT !.kv = Upd(R.kv, c.key, c.vals)])
    [] c.op = "EntityKVDel" ->
         IF c.key \notin Keys(R.kv) THEN ERR({"NotFound"}) ELSE Set([R EXCEPT !.kv = Rem(R.kv, c.key)])
    [] c.op = "EntityKVReplace" ->
         IF c.key \notin Keys(R.kv) THEN ERR({"NotFound"}) ELSE Set([R EXCEPT !.kv = Upd(R.kv, c.key, c.vals)])
    [] c.op = "EntityLock" -> Set([R EXCEPT !.lk = TRUE])
    [] c.op = "EntityUnlock" -> Set([R EXCEPT !.lk = FALSE])
    [] c.op = "EntityDestroy" -> OK([S EXCEPT !.e = Without(S.e, id)])

EffG(S, c, n) ==
  LET g == c.g
      R == S.g[g]
      Set(r) == OK(SetG(S, g, r))
  IN
  IF c.op = "GroupCreate" THEN
    IF g \in DOMAIN S.g THEN ERR({"AlreadyExists"} \cup IF c.mb \in {"", g} \cup DOMAIN S.g THEN {} ELSE OTHER_ERR)
    ELSE IF BadName(g) \/ c.mb \notin {"", g} \cup DOMAIN S.g THEN ERR(OTHER_ERR)
    ELSE Set(NewGrp(IF c.num = -1 THEN n ELSE c.num, c.dn, c.mb))
  ELSE IF g \notin DOMAIN S.g THEN ERR({"NotFound"})
  ELSE CASE c.op = "GroupUpdate" -> Set([R EXCEPT !.dn = Get(c, "dn", R.dn), !.mb = Get(c, "mb", R.mb)])
    [] c.op = "GroupUM" -> Set([R EXCEPT !.um = UMEdit(R.um, c)])
    [] c.op = "GroupKVAdd" ->
         IF c.key \in Keys(R.kv) THEN ERR(OTHER_ERR) ELSE Set([R EXCEPT !.kv = Upd(R.kv, c.key, c.vals)])
    [] c.op = "GroupKVDel" ->
         IF c.key \notin Keys(R.kv) THEN ERR(OTHER_ERR) ELSE Set([R EXCEPT !.kv = Rem(R.kv, c.key)])
    [] c.op = "GroupKVReplace" ->
         IF c.key \notin Keys(R.kv) THEN ERR(OTHER_ERR) ELSE Set([R EXCEPT !.kv = Upd(R.kv, c.key, c.vals)])
    [] c.op = "GroupUpdateRules" ->
         IF c.act = "REMOVE_RULE" THEN
           IF c.tgt \in DOMAIN S.g \/ c.tgt \in {r[2] : r \in R.rules}
           THEN Set([R EXCEPT !.rules = {r \in R.rules : r[2] # c.tgt}])
           ELSE [ok |-> TRUE, S |-> S, err |-> OTHER_ERR]   \* nothing to remove
         ELSE IF c.tgt \notin DOMAIN S.g THEN ERR(OTHER_ERR)
         ELSE IF RuleErr(S, c) THEN ERR(OTHER_ERR)
         ELSE [Set([R EXCEPT !.rules = @ \cup {<<c.act, c.tgt>>}]) EXCEPT
               \* a chain with a missing group may be refused
               !.err = IF DanglingReach(S, c.tgt) THEN OTHER_ERR ELSE {}]
    [] c.op = "GroupDestroy" -> OK([S EXCEPT !.g = Without(S.g, g)])

(* membership edits name several groups, handled one after the other *)
MemberOne(S, c, g) ==
  LET p == PreErr(S, c) IN
  IF p # "" /\ ~(p = "PermissionDenied" /\ Delegated(S, Claims(S, c).id, g)) THEN ERR({p})
  ELSE IF c.id \notin DOMAIN S.e THEN ERR(OTHER_ERR)
  ELSE OK(SetE(S, c.id, [S.e[c.id] EXCEPT !.gr = IF c.op = "GroupAddMember" THEN @ \cup {g} ELSE @ \ {g}]))

RECURSIVE MemberRun(_, _, _)
MemberRun(S, c, i) ==   \* the states passed through and the final verdict
  IF i > Len(c.gs) THEN [states |-> {S}, out |-> OK(S)]
  ELSE LET m == MemberOne(S, c, c.gs[i]) IN
       IF ~m.ok THEN [states |-> {S}, out |-> m]
       ELSE LET r == MemberRun(m.S, c, i + 1) IN [states |-> r.states \cup {S}, out |-> r.out]

CapEdit(S, c) ==
  IF c.tgt = "" \/ c.act \notin {"ADD", "DROP"} THEN ERR({"InvalidArgument"})
  ELSE IF c.direct THEN
    IF c.tgt \notin DOMAIN S.e THEN ERR(OTHER_ERR)
    ELSE OK(SetE(S, c.tgt, [S.e[c.tgt] EXCEPT !.caps = IF c.act = "ADD" THEN @ \cup {c.cap} ELSE @ \ {c.cap}]))
  ELSE
    IF c.tgt \notin DOMAIN S.g THEN ERR(OTHER_ERR)
    ELSE OK(SetG(S, c.tgt, [S.g[c.tgt] EXCEPT !.caps = IF c.act = "ADD" THEN @ \cup {c.cap} ELSE @ \ {c.cap}]))

(***************************************************************************)
(* A modifying call as a whole                                             *)
(***************************************************************************)
Modify(S, c, n) ==
  IF Bad(c) THEN ERR({"InvalidArgument"})
  ELSE IF c.op \in {"GroupAddMember", "GroupDelMember"} THEN
    IF Len(c.gs) = 0 THEN [ok |-> TRUE, S |-> S, err |-> {PreErr(S, c)} \ {""}]
    ELSE MemberRun(S, c, 1).out
  ELSE LET a == AuthErr(S, c) IN
    IF a # "" THEN ERR({a})
    ELSE IF c.op = "SystemCapabilities" THEN CapEdit(S, c)
    ELSE IF c.op \in MutatingEnt \cup {"AuthChangeSecret"} THEN EffE(S, c, n)
    ELSE EffG(S, c, n)

AutoNum(c) == c.op \in {"EntityCreate", "GroupCreate"} /\ c.num = -1
AutoOK(S, c, n) == NumOK(IF c.op = "EntityCreate" THEN S.e ELSE S.g, n)

(***************************************************************************)
(* Queries: the admissible codes and the answer on success.  A query never *)
(* changes S, except that a token request adds the token it issues.        *)
(***************************************************************************)
NoSec(r) == [r EXCEPT !.sec = ""]
Field(r, f) ==   \* the values of an indexed field
  CASE f = "ID" -> {}
    [] f = "num" -> {r.num}
    [] f = "lk" -> {r.lk}
    [] OTHER -> {p[2] : p \in {q \in r.meta : q[1] = f}}

Query(S, c) ==
  CASE c.op \in {"AuthEntity", "AuthGetToken"} ->
         IF Authentic(S, c.id, c.sec) THEN OK(IF c.op = "AuthEntity" THEN {} ELSE [id |-> c.id, caps |-> CapsOf(S, c.id)])
         ELSE ERR({"Unauthenticated"})
    [] c.op = "AuthValidateToken" -> IF Cred(S, c) = "ok" THEN OK({}) ELSE ERR({"Unauthenticated"})
    [] c.op = "EntityInfo" -> IF c.id \in DOMAIN S.e THEN OK(NoSec(S.e[c.id])) ELSE ERR({"NotFound"})
    [] c.op = "GroupInfo" -> IF c.g \in DOMAIN S.g THEN OK(S.g[c.g]) ELSE ERR({"NotFound"})
    [] c.op = "EntityGroups" -> IF c.id \in DOMAIN S.e THEN OK(Groups(S, c.id)) ELSE ERR({"NotFound"})
    [] c.op = "GroupMembers" -> [OK(Members(S, c.g)) EXCEPT !.err = IF c.g \in DOMAIN S.g THEN {} ELSE {"NotFound"}]
    [] c.op = "EntityUM" -> IF c.id \in DOMAIN S.e THEN OK(UMRead(S.e[c.id].um, c)) ELSE ERR({"NotFound"})
    [] c.op = "GroupUM" -> IF c.g \in DOMAIN S.g THEN OK(UMRead(S.g[c.g].um, c)) ELSE ERR({"NotFound"})
    [] c.op = "EntityKeys" -> IF c.id \in DOMAIN S.e THEN OK(S.e[c.id].keys) ELSE ERR({"NotFound"})
    [] c.op = "EntityKVGet" ->
         IF c.id \in DOMAIN S.e /\ (c.key = "*" \/ c.key \in Keys(S.e[c.id].kv))
         THEN OK(KVRead(S.e[c.id].kv, c.key)) ELSE ERR({"NotFound"})
    [] c.op = "GroupKVGet" ->
         IF c.g \in DOMAIN S.g /\ (c.key = "*" \/ c.key \in Keys(S.g[c.g].kv))
         THEN OK(KVRead(S.g[c.g].kv, c.key)) ELSE ERR({"NotFound"})
    [] OTHER -> OK({})

(***************************************************************************)
(* Start of the server, with or without a bootstrap                        *)
(***************************************************************************)
Bootstrapped(S, id, s, n) ==
  LET r == IF id \in DOMAIN S.e THEN S.e[id] ELSE NewEnt(n, s)
  IN SetE(S, id, [r EXCEPT !.sec = s, !.lk = FALSE, !.caps = @ \cup {ROOT}])
=============================================================================
