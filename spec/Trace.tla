------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Judges recorded executions of the real server against NetAuth.tla.      *)
(*                                                                         *)
(* A trace is a sequence of lines, each one request (or restart, storage   *)
(* fault, crash, concurrent block, probe) with the answer given and the    *)
(* change of the stored data observed behind the server's back.  Every     *)
(* line is judged from the state observed before it; the observed state is *)
(* then adopted, so that one deviation does not drag others along.  Every  *)
(* deviation is printed with the properties it violates.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
Tab   == Lines[1]      \* string tables: base, upper, bad

TBase(k)  == IF k \in DOMAIN Tab.base THEN Tab.base[k] ELSE k
TUpper(k) == IF k \in DOMAIN Tab.upper THEN Tab.upper[k] ELSE k
TBad(k)   == k \in DOMAIN Tab.bad
TColon(k) == k \in DOMAIN Tab.colon

INSTANCE NetAuth WITH Base <- TBase, Upper <- TUpper, BadName <- TBad, Colon <- TColon

VARIABLES i, S, memo, nbad
vars == <<i, S, memo, nbad>>

Empty == [x \in {} |-> 0]
ZeroS == [e |-> Empty, g |-> Empty, ro |-> FALSE, toks |-> Empty]

(***************************************************************************)
(* Reading lines                                                           *)
(***************************************************************************)
CE(r) == [num |-> r.num, sec |-> r.sec, lk |-> r.lk, caps |-> Range(r.caps), gr |-> Range(r.gr),
          keys |-> Range(r.keys), um |-> Range(r.um), kv |-> Range(r.kv), meta |-> Range(r.meta)]
CG(r) == [num |-> r.num, dn |-> r.dn, mb |-> r.mb, caps |-> Range(r.caps), rules |-> Range(r.rules),
          um |-> Range(r.um), kv |-> Range(r.kv)]

Fst(l) == {p[1] : p \in Range(l)}
Look(l, k) == (CHOOSE p \in Range(l) : p[1] = k)[2]

Observed(s, L) ==
  LET de == Fst(L.de)
      dg == Fst(L.dg)
  IN [s EXCEPT
      !.e = IF L.de = <<>> /\ L.xe = <<>> THEN @
            ELSE [x \in (DOMAIN @ \ Range(L.xe)) \cup de |-> IF x \in de THEN CE(Look(L.de, x)) ELSE s.e[x]],
      !.g = IF L.dg = <<>> /\ L.xg = <<>> THEN @
            ELSE [x \in (DOMAIN @ \ Range(L.xg)) \cup dg |-> IF x \in dg THEN CG(Look(L.dg, x)) ELSE s.g[x]]]

(***************************************************************************)
(* Which properties a deviation violates                                   *)
(***************************************************************************)
EntOps == MutatingEnt \cup {"EntityInfo", "EntityGroups", "EntityKVGet", "GroupAddMember", "GroupDelMember",
                            "AuthEntity", "AuthGetToken", "AuthChangeSecret"}

ETargets(c) == IF c.op = "SystemCapabilities" THEN (IF c.direct THEN {c.tgt} ELSE {})
               ELSE IF c.op \in EntOps THEN {c.id} ELSE {}
GTargets(c) == IF c.op = "SystemCapabilities" THEN (IF c.direct THEN {} ELSE {c.tgt})
               ELSE IF c.op \in MutatingGrp \ {"GroupAddMember", "GroupDelMember"} THEN {c.g} ELSE {}

Prim(op) ==
  CASE op \in {"AuthEntity", "AuthGetToken"} -> {"C01"}
    [] op = "AuthValidateToken" -> {"C08"}
    [] op = "AuthChangeSecret" -> {"C03"}
    [] op \in {"EntityCreate", "EntityDestroy", "EntityInfo"} -> {"C16"}
    [] op \in {"GroupCreate", "GroupDestroy", "GroupInfo"} -> {"C17"}
    [] op \in {"EntityUpdate", "GroupUpdate"} -> {"C07"}
    [] op \in {"EntityUM", "GroupUM"} -> {"C20"}
    [] op \in {"EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKVGet",
               "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupKVGet"} -> {"C19"}
    [] op = "EntityKeys" -> {"C21"}
    [] op \in {"EntityLock", "EntityUnlock"} -> {"C02"}
    [] op \in {"EntityGroups", "GroupMembers"} -> {"C11"}
    [] op = "GroupUpdateRules" -> {"C13"}
    [] op \in {"GroupAddMember", "GroupDelMember"} -> {"C15"}
    [] op = "SystemCapabilities" -> {"C22"}
    [] op \in {"EntitySearch", "GroupSearch"} -> {"C27"}
    [] op \in {"SystemPing", "SystemStatus"} -> {"C31"}
    [] OTHER -> {"C35"}

EFieldTags(a, b) ==
  (IF a.sec # b.sec THEN {"C01", "C03"} ELSE {}) \cup (IF a.lk # b.lk THEN {"C02"} ELSE {})
  \cup (IF a.caps # b.caps THEN {"C22"} ELSE {}) \cup (IF a.gr # b.gr THEN {"C15"} ELSE {})
  \cup (IF a.keys # b.keys THEN {"C21"} ELSE {}) \cup (IF a.um # b.um THEN {"C20"} ELSE {})
  \cup (IF a.kv # b.kv THEN {"C19"} ELSE {}) \cup (IF a.meta # b.meta THEN {"C07"} ELSE {})
  \cup (IF a.num # b.num THEN {"C18"} ELSE {})
GFieldTags(a, b) ==
  (IF a.dn # b.dn \/ a.mb # b.mb THEN {"C07"} ELSE {}) \cup (IF a.caps # b.caps THEN {"C22"} ELSE {})
  \cup (IF a.rules # b.rules THEN {"C13"} ELSE {}) \cup (IF a.um # b.um THEN {"C20"} ELSE {})
  \cup (IF a.kv # b.kv THEN {"C19"} ELSE {}) \cup (IF a.num # b.num THEN {"C18"} ELSE {})

(* X expected, O observed state; et, gt the records the request names *)
DiffTags(X, O, et, gt) ==
  LET ex == {x \in DOMAIN X.e \cup DOMAIN O.e :
               IF x \in DOMAIN X.e /\ x \in DOMAIN O.e THEN X.e[x] # O.e[x] ELSE TRUE}
      gx == {y \in DOMAIN X.g \cup DOMAIN O.g :
               IF y \in DOMAIN X.g /\ y \in DOMAIN O.g THEN X.g[y] # O.g[y] ELSE TRUE}
  IN UNION {IF x \in DOMAIN X.e /\ x \in DOMAIN O.e THEN EFieldTags(X.e[x], O.e[x]) ELSE {"C16"} : x \in ex}
     \cup UNION {IF y \in DOMAIN X.g /\ y \in DOMAIN O.g THEN GFieldTags(X.g[y], O.g[y]) ELSE {"C17"} : y \in gx}
     \cup (IF ex \ et # {} \/ gx \ gt # {} THEN {"C36"} ELSE {})
Same(X, O) == X.e = O.e /\ X.g = O.g

DeadCodes == {"HANG", "CRASH"}
AuthCodes == {"PermissionDenied", "Unauthenticated", "Unimplemented"}

(***************************************************************************)
(* A single request                                                        *)
(***************************************************************************)
Outcome(s, c, O) ==
  LET n == IF c.op = "EntityCreate" /\ c.id \in DOMAIN O.e THEN O.e[c.id].num
           ELSE IF c.op = "GroupCreate" /\ c.g \in DOMAIN O.g THEN O.g[c.g].num ELSE 1
  IN Modify(s, c, n)

IsMember(c) == c.op \in {"GroupAddMember", "GroupDelMember"}

(* refused for lack of authority *)
Refusal(s, c, m) ==
  IF Bad(c) THEN ""
  ELSE IF IsMember(c) THEN (IF PreErr(s, c) # "" /\ ~m.ok /\ m.err = {PreErr(s, c)} THEN PreErr(s, c) ELSE "")
  ELSE AuthErr(s, c)

ErrOK(s, c, m, ref, res) ==
  /\ res \notin DeadCodes
  /\ IF ref # "" THEN TRUE
     ELSE IF m.err = {} THEN FALSE
     ELSE IF m.err = {"NotFound"} /\ (IF c.op \in EntOps THEN c.id \notin DOMAIN s.e ELSE c.g \notin DOMAIN s.g)
          THEN res = "NotFound"
     ELSE res \in OTHER_ERR \cup m.err

(* asked by a manager of the group, whatever it is about *)
Manages(s, c) ==
  /\ Cred(s, c) = "ok"
  /\ \/ c.op \in MutatingGrp /\ Delegated(s, Claims(s, c).id, c.g)
     \/ c.op = "SystemCapabilities" /\ ~Get(c, "direct", TRUE) /\ Delegated(s, Claims(s, c).id, c.tgt)

ModRes(s, c, O, res) ==   \* tags for the result code
  LET m == Outcome(s, c, O)
      ref == Refusal(s, c, m)
      good == IF res = "OK" THEN m.ok ELSE ErrOK(s, c, m, ref, res)
  IN IF good THEN {}
     ELSE (IF res \in DeadCodes THEN {"C35"} ELSE {})
       \cup (IF s.ro THEN {"C10"} ELSE {})
       \cup (IF ref # "" THEN
               {"C05"} \cup (IF ~s.ro /\ Cred(s, c) # "ok" THEN {"C08"} ELSE {})
               \cup (IF c.op \in Delegable \/ Manages(s, c) THEN {"C06"} ELSE {})
               \cup (IF c.op = "AuthChangeSecret" THEN {"C03"} ELSE {})
               \cup (IF c.op = "AuthChangeSecret" /\ c.id \in DOMAIN s.e /\ s.e[c.id].lk THEN {"C02"} ELSE {})
               \cup (IF c.op = "SystemCapabilities" THEN {"C22"} ELSE {})
             ELSE IF res \in AuthCodes \/ (res = "InvalidArgument" /\ m.err = {}) THEN
               {"C05"} \cup (IF c.op \in Delegable /\ PreErr(s, c) # "" THEN {"C06"} ELSE {})
               \cup (IF res = "Unauthenticated" /\ Cred(s, c) = "ok" THEN {"C08"} ELSE {})
               \cup Prim(c.op)
             ELSE IF c.op = "GroupUpdateRules" /\ m.ok THEN {"C12", "C13"}
             ELSE IF c.op = "GroupUpdateRules" /\ c.g \in DOMAIN s.g /\ c.tgt \in DOMAIN s.g /\ CreatesCycle(s, c) THEN {"C12"}
             ELSE Prim(c.op))

(* the states that are admissible after the request reported res *)
Ends(s, c, m, res) ==
  IF res = "OK" THEN {IF m.ok THEN m.S ELSE s}
  ELSE IF IsMember(c) /\ ~Bad(c) THEN MemberRun(s, c, 1).states
  ELSE {s}

Widen(c, tags) == IF tags = {} THEN {} ELSE tags

ModState(s, c, O, res) ==
  LET m == Outcome(s, c, O)
      ref == Refusal(s, c, m)
      ends == Ends(s, c, m, res)
      X == IF res = "OK" /\ m.ok THEN m.S ELSE s
  IN (IF res = "OK" /\ m.ok /\ AutoNum(c) /\ Same(m.S, O) /\
         ~AutoOK(s, c, IF c.op = "EntityCreate" THEN O.e[c.id].num ELSE O.g[c.g].num)
      THEN {"C18"} ELSE {})
     \cup IF \E X2 \in ends : Same(X2, O) THEN {}
     ELSE DiffTags(X, O, ETargets(c), GTargets(c))
       \cup (IF res = "OK" /\ m.ok THEN Prim(c.op) ELSE {})
       \cup (IF res = "OK" /\ m.ok /\ Same(s, O) THEN {"C23"} ELSE {})
       \cup (IF res # "OK" THEN {"C23"} ELSE {})
       \cup (IF s.ro THEN {"C10"} ELSE {})
       \cup (IF ref # "" THEN {"C05"} ELSE {})

(* ---- queries ---- *)
SameOut(c, out, x) ==
  CASE c.op = "EntityInfo" -> Len(out) = 1 /\ CE(out[1]) = x
    [] c.op = "GroupInfo" -> Len(out) = 1 /\ CG(out[1]) = x
    [] c.op = "AuthGetToken" -> out.id = x.id /\ Range(out.caps) = x.caps
    [] OTHER -> Range(out) = x

NameOK(c, out) == IF c.op = "EntityInfo" THEN Len(out) = 1 /\ out[1].id = c.id
                  ELSE IF c.op = "GroupInfo" THEN Len(out) = 1 /\ out[1].id = c.g
                  ELSE TRUE

SearchOps == {"EntitySearch", "GroupSearch"}

EMatch(s, x, q) ==
  CASE q.f = "ID" -> x = q.v
    [] q.f = "Number" -> s.e[x].num = q.n
    [] q.f = "none" -> FALSE
    [] q.f = "all" -> TRUE
    [] q.f = "cap" -> q.v \in s.e[x].caps
    [] q.f = "group" -> q.v \in s.e[x].gr
    [] OTHER -> <<q.f, q.v>> \in s.e[x].meta
GMatch(s, y, q) ==
  CASE q.f = "Name" -> y = q.v
    [] q.f = "Number" -> s.g[y].num = q.n
    [] q.f = "none" -> FALSE
    [] q.f = "all" -> TRUE
    [] q.f = "DisplayName" -> s.g[y].dn = q.v
    [] q.f = "ManagedBy" -> s.g[y].mb = q.v
    [] OTHER -> FALSE

SearchTags(s, c, L) ==
  LET ids == {r.id : r \in Range(L.out)}
      ent == c.op = "EntitySearch"
      q == Get(c, "q", [f |-> "any"])
      cur == \A r \in Range(L.out) :
               IF ent THEN r.id \in DOMAIN s.e /\ CE(r) = NoSec(s.e[r.id])
               ELSE r.id \in DOMAIN s.g /\ CG(r) = s.g[r.id]
      want == IF ent THEN {x \in DOMAIN s.e : EMatch(s, x, q)} ELSE {y \in DOMAIN s.g : GMatch(s, y, q)}
  IN IF L.res # "OK" THEN (IF q.f = "any" THEN {} ELSE {"C27"}) \cup (IF L.res \in DeadCodes THEN {"C35"} ELSE {})
     ELSE IF ~cur \/ Cardinality(ids) # Len(L.out) THEN {"C27"}
     ELSE IF q.f = "any" THEN {}
     ELSE IF q.f = "none" THEN (IF ids # {} THEN {"C04"} ELSE {})
     ELSE IF ids # want THEN {"C27"} ELSE {}

QueryTags(s, c, L) ==
  IF c.op = "Malformed" THEN IF L.res \in DeadCodes \/ L.res = "Unknown" THEN {"C35"} ELSE {}
  ELSE IF c.op \in SearchOps THEN SearchTags(s, c, L) \cup (IF s.ro /\ SearchTags(s, c, L) # {} THEN {"C10"} ELSE {})
  ELSE LET m == Query(s, c)
           res == L.res
           good == IF res = "OK" THEN m.ok
                   ELSE /\ res \notin DeadCodes
                        /\ m.err # {}
                        /\ (c.op \in {"AuthEntity", "AuthGetToken", "AuthValidateToken"} \/ res \in m.err)
       IN (IF res \in DeadCodes THEN {"C35"} ELSE {})
          \cup (IF ~good THEN Prim(c.op) \cup (IF s.ro THEN {"C10"} ELSE {})
                  \cup (IF c.op \in {"AuthEntity", "AuthGetToken"} /\ c.id \in DOMAIN s.e /\ s.e[c.id].lk THEN {"C02"} ELSE {})
                  \cup (IF c.op \in {"EntityInfo", "EntityGroups", "EntityKeys", "EntityKVGet"} /\ c.id \notin DOMAIN s.e THEN {"C16"} ELSE {})
                  \cup (IF c.op \in {"GroupInfo", "GroupKVGet"} /\ c.g \notin DOMAIN s.g THEN {"C17"} ELSE {})
                ELSE {})
          \cup (IF /\ res = "OK" /\ m.ok
                   /\ c.op \notin {"AuthEntity", "AuthValidateToken", "SystemPing", "SystemStatus"}
                   /\ (~SameOut(c, L.out, m.S) \/ ~NameOK(c, L.out))
                THEN (IF c.op = "AuthGetToken" THEN {"C09"} ELSE Prim(c.op)) \cup (IF s.ro THEN {"C10"} ELSE {})
                     \cup (IF c.op = "EntityInfo" /\ Len(L.out) = 1 THEN EFieldTags(m.S, CE(L.out[1])) \ {"C01", "C03"} ELSE {})
                     \cup (IF c.op = "GroupInfo" /\ Len(L.out) = 1 THEN GFieldTags(m.S, CG(L.out[1])) ELSE {})
                ELSE {})

IsMod(c) == \/ c.op \in MutatingEnt \cup MutatingGrp \cup {"AuthChangeSecret", "SystemCapabilities"}
               /\ (Mutating(c) \/ Bad(c))

Leak(L) == IF Get(L, "leak", <<>>) # <<>> THEN {"C04"} ELSE {}

(* records must be stored under their own name *)
Named(L) == IF \A p \in Range(L.de) : p[2].id = p[1] THEN {} ELSE {"C16", "C36"}
NamedG(L) == IF \A p \in Range(L.dg) : p[2].id = p[1] THEN {} ELSE {"C17", "C36"}

CallTags(s, c, L, O) ==
  (IF IsMod(c) THEN ModRes(s, c, O, L.res) \cup ModState(s, c, O, L.res)
   ELSE QueryTags(s, c, L)
        \cup (IF Same(s, O) THEN {}
              ELSE IF c.op = "Malformed" /\ L.res = "OK" /\ ~s.ro /\ Cred(s, c) = "ok" THEN {}
              ELSE IF c.op = "Malformed" THEN (IF s.ro THEN {"C10"} ELSE {}) \cup (IF Cred(s, c) # "ok" THEN {"C05"} ELSE {})
                                              \cup (IF L.res # "OK" THEN {"C23"} ELSE {})
              ELSE DiffTags(s, O, {}, {}) \cup {"C36"} \cup (IF s.ro THEN {"C10"} ELSE {})
                   \cup (IF c.op \in {"AuthEntity", "AuthGetToken"} THEN {"C01"} ELSE {})))
  \cup Leak(L)

NewToks(s, c, L) ==
  IF c.op = "AuthGetToken" /\ L.res = "OK" /\ Get(c, "as", "") # ""
  THEN With(s.toks, c.as, [id |-> L.out.id, caps |-> Range(L.out.caps)]) ELSE s.toks

(***************************************************************************)
(* The process died, or hung, during a step                                *)
(***************************************************************************)
DeathTags(s, L, O) ==
  {"C35"} \cup
  CASE L.during = "Par" -> {"C26"}
    [] L.during = "Restart" -> {"C14", "C24"}
    [] L.during = "Probe" -> {"C11"}
    [] L.during = "Fault" -> {"C23"}
    [] L.during = "Crash" -> {"C24"}
    [] L.during = "Malformed" -> {}
    [] OTHER -> IF IsMod(L.step) THEN ModRes(s, L.step, O, "CRASH")
                ELSE IF L.during \in SearchOps THEN {"C27"}
                ELSE QueryTags(s, L.step, L)

(***************************************************************************)
(* A request hit by a storage failure: any error, and then no effect       *)
(***************************************************************************)
FaultTags(s, L, O) ==
  LET c == L.call IN
  IF ~L.hit THEN CallTags(s, c, L, O)
  ELSE (IF L.res \in DeadCodes THEN {"C35", "C23"} ELSE {})
    \cup (IF L.res = "OK" THEN
           \* the groups of an entity may miss those that could not be read
           IF /\ c.op = "EntityGroups" /\ Same(s, O) /\ Query(s, c).ok
              /\ Range(L.out) \subseteq Query(s, c).S THEN {}
           ELSE LET t == CallTags(s, c, L, O) IN IF t # {} /\ IsMod(c) THEN t \cup {"C23"} ELSE t
         ELSE IF IsMod(c) THEN
           (IF \E X \in Ends(s, c, Outcome(s, c, O), L.res) : Same(X, O) THEN {} ELSE {"C23"} \cup DiffTags(s, O, ETargets(c), GTargets(c)))
         ELSE IF Same(s, O) THEN {} ELSE {"C23", "C36"})
    \cup Leak(L)

(***************************************************************************)
(* A crash during a request, followed by a start: old or new, per record   *)
(***************************************************************************)
CrashTags(s, L, O) ==
  LET c == L.call
      m == Outcome(s, c, O)
      ends == {s} \cup (IF IsMod(c) THEN (IF m.ok THEN {m.S} ELSE {}) \cup (IF IsMember(c) THEN MemberRun(s, c, 1).states ELSE {}) ELSE {})
  IN IF L.res = "FAILED" THEN {"C24"}
     ELSE IF L.res # "DIED" THEN CallTags(s, c, L, O)
     ELSE IF \E X \in ends : Same(X, O) THEN {} ELSE {"C24"} \cup (DiffTags(s, O, ETargets(c), GTargets(c)) \cap {"C36"})

(***************************************************************************)
(* Concurrent requests: some order explains all answers and the outcome    *)
(***************************************************************************)
(* A request takes effect in one or more atomic stages; a configuration is
   [S, pos]: pos[k] is the stage request k has reached, 0..Stages. *)
TwoStage(s, c) == \/ c.op = "AuthChangeSecret"
                  \/ c.op \in Delegable \ {"GroupAddMember", "GroupDelMember"} /\ PreErr(s, c) = "PermissionDenied"
Stages(s, c) == IF IsMember(c) THEN 2 * Len(c.gs) + 1 ELSE IF TwoStage(s, c) THEN 2 ELSE 1

Lost == 77770000     \* a number given to what was destroyed again

(* the states after the next stage of h, given what h answered; {} if that
   cannot be its answer *)
NumsIn(O, c, k) == IF c.op = "EntityCreate" THEN {IF c.id \in DOMAIN O.e THEN O.e[c.id].num ELSE Lost + k}
                   ELSE IF c.op = "GroupCreate" THEN {IF c.g \in DOMAIN O.g THEN O.g[c.g].num ELSE Lost + k} ELSE {}

FullStep(s, h, nums) ==
  LET c == h.c IN
  IF ~IsMod(c) THEN
    IF QueryTags(s, c, [res |-> h.res, out |-> h.out]) = {} THEN {s} ELSE {}
  ELSE UNION {
    LET m == Modify(s, c, n)
        ref == Refusal(s, c, m)
    IN IF h.res = "OK" THEN IF m.ok /\ (AutoNum(c) => AutoOK(s, c, n)) THEN {m.S} ELSE {}
       ELSE IF ErrOK(s, c, m, ref, h.res) THEN {s} ELSE {} : n \in nums}

Done == 99
(* what other requests of H may have destroyed while h was handled *)
Meanwhile(H, h, op) == {k \in DOMAIN H : H[k].c.op = op /\ H[k].s < h.e /\ h.s < H[k].e}
GoneE(H, h) == {H[k].c.id : k \in Meanwhile(H, h, "EntityDestroy")}
GoneG(H, h) == {H[k].c.g : k \in Meanwhile(H, h, "GroupDestroy")}

(* successors: set of [S, st] where st is the next stage or Done *)
StageStep(H, s, h, st, nums) ==
  LET c == h.c IN
  IF c.op = "EntityGroups" THEN
    IF st = 0 THEN
      IF c.id \notin DOMAIN s.e THEN (IF h.res = "NotFound" THEN {[S |-> s, st |-> Done]} ELSE {})
      ELSE {[S |-> s, st |-> 1]}
    ELSE LET R == Groups(s, c.id) IN
      IF h.res = "OK" /\ Range(h.out) \subseteq R /\ (R \ Range(h.out)) \subseteq GoneG(H, h)
      THEN {[S |-> s, st |-> Done]} ELSE {}
  ELSE IF c.op = "GroupMembers" /\ h.res # "OK" /\ GoneE(H, h) # {} THEN
    IF h.res \in DeadCodes THEN {} ELSE {[S |-> s, st |-> Done]}
  ELSE IF c.op \in SearchOps THEN
    LET ent == c.op = "EntitySearch"
        ids == {r.id : r \in Range(h.out)}
        want == IF ent THEN {x \in DOMAIN s.e : EMatch(s, x, c.q)} ELSE {y \in DOMAIN s.g : GMatch(s, y, c.q)}
    IN IF h.res \in DeadCodes THEN {}
       ELSE IF h.res # "OK" THEN (IF (IF ent THEN GoneE(H, h) ELSE GoneG(H, h)) # {} THEN {[S |-> s, st |-> Done]} ELSE {})
       ELSE IF ids = want /\ Cardinality(ids) = Len(h.out) THEN {[S |-> s, st |-> Done]} ELSE {}
  ELSE IF c.op = "AuthChangeSecret" THEN
    IF st = 0 THEN
      LET a == AuthErr(s, c) IN
      IF a # "" THEN (IF h.res \notin {"OK"} \cup DeadCodes THEN {[S |-> s, st |-> Done]} ELSE {})
      ELSE {[S |-> s, st |-> 1]}
    ELSE LET m == EffE(s, c, 0) IN
      IF m.ok THEN (IF h.res = "OK" THEN {[S |-> m.S, st |-> Done]} ELSE {})
      ELSE IF h.res \in m.err THEN {[S |-> s, st |-> Done]} ELSE {}
  ELSE IF IsMember(c) THEN
    \* even stages check the authority for a group, odd ones do the edit
    LET k == (st \div 2) + 1
        p == PreErr(s, c)
    IN IF k > Len(c.gs) THEN (IF h.res = "OK" THEN {[S |-> s, st |-> Done]} ELSE {})
       ELSE IF st % 2 = 0 THEN
         IF p # "" /\ ~(p = "PermissionDenied" /\ Delegated(s, Claims(s, c).id, c.gs[k]))
         THEN (IF h.res \notin {"OK"} \cup DeadCodes THEN {[S |-> s, st |-> Done]} ELSE {})
         ELSE {[S |-> s, st |-> st + 1]}
       ELSE IF c.id \notin DOMAIN s.e THEN (IF h.res \in OTHER_ERR THEN {[S |-> s, st |-> Done]} ELSE {})
       ELSE {[S |-> SetE(s, c.id, [s.e[c.id] EXCEPT !.gr = IF c.op = "GroupAddMember" THEN @ \cup {c.gs[k]} ELSE @ \ {c.gs[k]}]),
              st |-> st + 1]}
  ELSE IF c.op \in Delegable /\ IsMod(c) /\ ~Bad(c) /\ PreErr(s, c) = "PermissionDenied" THEN
    IF st = 0 THEN
      IF AuthErr(s, c) # "" THEN (IF h.res \notin {"OK"} \cup DeadCodes THEN {[S |-> s, st |-> Done]} ELSE {})
      ELSE {[S |-> s, st |-> 1]}
    ELSE LET m == EffG(s, c, 0) IN
      (IF m.ok /\ h.res = "OK" THEN {[S |-> m.S, st |-> Done]} ELSE {})
      \cup (IF h.res # "OK" /\ h.res \in m.err THEN {[S |-> s, st |-> Done]} ELSE {})
  ELSE {[S |-> t, st |-> Done] : t \in FullStep(s, h, nums)}

(* request k may move now: everything that ended before it began is done *)
MayMove(H, pos, k) == pos[k] # Done /\ \A j \in DOMAIN H : H[j].e < H[k].s => pos[j] = Done

RECURSIVE Explore(_, _, _, _)
Explore(H, O, todo, finals) ==
  IF todo = {} THEN finals
  ELSE LET nxt == UNION {
             UNION {{[S |-> r.S, pos |-> [f.pos EXCEPT ![k] = r.st]] :
                       r \in StageStep(H, f.S, H[k], f.pos[k], NumsIn(O, H[k].c, k) \cup {1})} : k \in {k \in DOMAIN H : MayMove(H, f.pos, k)}}
             : f \in todo}
           fin == {f \in nxt : \A k \in DOMAIN H : f.pos[k] = Done}
       IN Explore(H, O, nxt \ fin, finals \cup {f.S : f \in fin})

ParTags(s, L, O) ==
  LET H == L.hist
      finals == Explore(H, O, {[S |-> s, pos |-> [k \in DOMAIN H |-> 0]]}, {})
      created == {x \in DOMAIN O.e \ DOMAIN s.e : \E k \in DOMAIN H : H[k].c.op = "EntityCreate" /\ H[k].c.id = x /\ H[k].c.num = -1}
      gcreated == {x \in DOMAIN O.g \ DOMAIN s.g : \E k \in DOMAIN H : H[k].c.op = "GroupCreate" /\ H[k].c.g = x /\ H[k].c.num = -1}
  IN (IF \E k \in DOMAIN H : H[k].res \in DeadCodes THEN {"C26", "C35"} ELSE {})
     \cup (IF "races" \in DOMAIN L THEN {"C26"} ELSE {})
     \cup (IF \E X \in finals : Same(X, O) THEN {} ELSE {"C26"}
             \cup (IF \E x \in created : \E y \in DOMAIN O.e \ {x} : O.e[x].num = O.e[y].num THEN {"C18"} ELSE {})
             \cup (IF \E x \in gcreated : \E y \in DOMAIN O.g \ {x} : O.g[x].num = O.g[y].num THEN {"C18"} ELSE {}))

(***************************************************************************)
(* Probes and restarts                                                     *)
(***************************************************************************)
ProbeTags(s, L) ==
  LET EG(p) == IF p[1] \in DOMAIN s.e THEN p[2] = "OK" /\ Range(p[3]) = Groups(s, p[1]) ELSE p[2] # "OK"
      GM(p) == IF p[1] \in DOMAIN s.g THEN p[2] = "OK" /\ Range(p[3]) = Members(s, p[1])
               ELSE p[2] # "OK" \/ p[3] = <<>>
      EI(p) == IF p[1] \in DOMAIN s.e THEN p[2] = "OK" /\ Len(p[3]) = 1 /\ p[3][1].id = p[1] /\ CE(p[3][1]) = NoSec(s.e[p[1]])
               ELSE p[2] = "NotFound"
      GI(p) == IF p[1] \in DOMAIN s.g THEN p[2] = "OK" /\ Len(p[3]) = 1 /\ p[3][1].id = p[1] /\ CG(p[3][1]) = s.g[p[1]]
               ELSE p[2] = "NotFound"
      All(l, P(_)) == \A k \in DOMAIN l : P(l[k])
      Alive(p) == p[2] \notin DeadCodes
      t == (IF All(L.eg, EG) /\ All(L.gm, GM) THEN {} ELSE {"C11"})
           \cup (IF \E k \in DOMAIN L.eg : L.eg[k][1] \notin DOMAIN s.e /\ L.eg[k][2] = "OK" THEN {"C16"} ELSE {})
           \* memberships that nothing gave to the entity that is there now
           \cup (IF \E k \in DOMAIN L.eg : LET x == L.eg[k][1] IN x \in DOMAIN s.e /\ s.e[x].gr = {} /\ Range(L.eg[k][3]) # {} THEN {"C16"} ELSE {})
           \cup (IF All(L.ei, EI) THEN {} ELSE {"C16"}) \cup (IF All(L.gi, GI) THEN {} ELSE {"C17"})
           \cup (IF All(L.eg, Alive) /\ All(L.gm, Alive) /\ All(L.ei, Alive) /\ All(L.gi, Alive) THEN {} ELSE {"C35"})
  IN t \cup (IF s.ro /\ t # {} THEN {"C10"} ELSE {})

(* answers already given for the same stored data *)
ProbeMemo(L) ==
  LET F(l, n) == [k \in {<<n, l[j][1]>> : j \in DOMAIN l} |->
                    LET j == CHOOSE j \in DOMAIN l : l[j][1] = k[2] IN <<l[j][2], Range(l[j][3])>>]
  IN F(L.eg, "eg") @@ F(L.gm, "gm")
CallMemo(c, L) ==
  IF c.op \in SearchOps THEN [k \in {<<c.op, c.expr>>} |-> <<L.res, {r.id : r \in Range(L.out)}>>]
  ELSE IF c.op = "AuthGetToken" /\ L.res = "OK" THEN [k \in {<<"tok", c.id>>} |-> <<"OK", Range(L.out.caps)>>]
  ELSE IF c.op = "EntityGroups" THEN [k \in {<<"eg", c.id>>} |-> <<L.res, Range(L.out)>>]
  ELSE IF c.op = "GroupMembers" THEN [k \in {<<"gm", c.g>>} |-> <<L.res, Range(L.out)>>]
  ELSE [k \in {} |-> 0]
LineMemo(L) == IF L.op = "Probe" THEN ProbeMemo(L)
               ELSE IF L.op \in {"Restart", "Fault", "Crash", "Par"} THEN [k \in {} |-> 0]
               ELSE CallMemo(L, L)
MemoTags(m, n) == IF \E k \in DOMAIN m \cap DOMAIN n : m[k] # n[k] THEN {"C14"} ELSE {}

RestartTags(s, L, O) ==
  LET bid == Get(L, "bid", "")
      n == IF bid \in DOMAIN O.e THEN O.e[bid].num ELSE 1
      X == IF bid = "" \/ (bid \notin DOMAIN s.e /\ TBad(bid)) THEN s ELSE Bootstrapped(s, bid, L.bsec, n)
  IN IF L.res # "OK" THEN {"C24", "C35"}
     ELSE (IF Same(X, O) THEN {} ELSE DiffTags(X, O, {bid}, {}) \cup {"C28"}
             \cup (IF bid = "" THEN {"C24"} ELSE {}))
          \cup (IF bid # "" /\ bid \notin DOMAIN s.e /\ bid \in DOMAIN O.e /\ ~NumOK(s.e, n) THEN {"C18"} ELSE {})

(***************************************************************************)
(* The run over the trace                                                  *)
(***************************************************************************)
Tags(s, L, O) ==
  CASE L.op = "Restart" -> RestartTags(s, L, O)
    [] L.op = "Probe" -> ProbeTags(s, L) \cup Leak(L) \cup (IF Same(s, O) THEN {} ELSE {"C36"} \cup DiffTags(s, O, {}, {}))
    [] L.op = "Fault" -> FaultTags(s, L, O)
    [] L.op = "Crash" -> CrashTags(s, L, O)
    [] L.op = "Par" -> ParTags(s, L, O)
    [] L.op = "CRASH" -> DeathTags(s, L, O)
    [] OTHER -> CallTags(s, L, L, O)

(* with a hashing engine no secret may be found in the store *)
Clear(L) == IF Get(L, "clear", <<>>) # <<>> THEN {"C04"} ELSE {}

(* what was asked through the client library *)
ViaLib(L, u, O) ==
  IF Get(L, "via", "") # "lib" THEN {}
  ELSE IF u # {} THEN {"C32"}
  ELSE IF "subs" \in DOMAIN L
       THEN LET got == {L.subs[j] : j \in 1..Len(L.subs)}
                want == {g \in DOMAIN O.g : O.g[g].mb = L.g}
            IN IF got \subseteq want /\ (L.plain => got = want) THEN {} ELSE {"C32"}
       ELSE {}

Broken(L) == IF "broken" \in DOMAIN L THEN {"C24", "C25", "C36"} ELSE {}

Step ==
  LET L == Lines[i] IN
  IF L.op = "Reset" THEN S' = ZeroS /\ memo' = [k \in {} |-> 0] /\ nbad' = nbad
  ELSE LET O == Observed(S, L)
           nm == LineMemo(L)
           om == IF Same(S, O) THEN memo ELSE [k \in {} |-> 0]
           u == Tags(S, L, O) \cup Broken(L) \cup Clear(L) \cup MemoTags(om, nm) \cup Named(L) \cup NamedG(L)
           t == u \cup ViaLib(L, u, O)
       IN /\ IF t = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> t]))
          /\ nbad' = nbad + (IF t = {} THEN 0 ELSE 1)
          /\ memo' = nm @@ om
          /\ S' = [O EXCEPT !.ro = IF L.op \in {"Restart", "Crash"} THEN Get(L, "ro", FALSE) ELSE S.ro,
                            !.toks = IF L.op \in {"Restart", "Probe", "Crash", "Par", "CRASH"} THEN S.toks
                                     ELSE IF L.op = "Fault" THEN NewToks(S, L.call, L) ELSE NewToks(S, L, L)]

Init == i = 2 /\ S = ZeroS /\ memo = [k \in {} |-> 0] /\ nbad = 0
Next == i <= Len(Lines) /\ Step /\ i' = i + 1
Spec == Init /\ [][Next]_vars

(* printed when the last line has been judged *)
Finished == i = Len(Lines) + 1 => PrintT("JUDGED " \o ToJson([lines |-> Len(Lines) - 1, bad |-> nbad]))
=============================================================================
