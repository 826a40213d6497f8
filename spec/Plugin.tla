------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* A server with plugins.  A plugin is asked about an action while the     *)
(* request for it is handled, with the record as it is at that point; it   *)
(* may object, which fails the request, or amend the record.               *)
(*                                                                         *)
(* To the state of NetAuth.tla this adds                                   *)
(*   pl    the names of the loaded plugins                                 *)
(*   do    <<plugin, action>> -> "veto", "amend", "lock" or "die"          *)
(*   dead  the plugins whose process is gone                               *)
(*   sick  whether some plugin did not start                               *)
(***************************************************************************)
EXTENDS NetAuth

EntityActions == {"EntityCreate", "EntityUpdate", "EntityLock", "EntityUnlock", "EntityDestroy",
                  "PreSecretChange", "PostSecretChange", "PreAuthCheck", "PostAuthCheck"}
GroupActions  == {"GroupCreate", "GroupUpdate", "GroupDestroy"}

(* the action taken between the change and its storing; "" if there is none *)
Action(c) ==
  CASE c.op \in {"EntityCreate", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityUpdate"} -> c.op
    [] c.op = "EntityUM" /\ Mutating(c) -> "EntityUpdate"
    [] c.op \in {"GroupCreate", "GroupDestroy", "GroupUpdate"} -> c.op
    [] c.op = "GroupUM" /\ Mutating(c) -> "GroupUpdate"
    [] OTHER -> ""

Signed(p) == "by-" \o p
Does(S, p, a) == IF p \in S.dead THEN "gone" ELSE IF <<p, a>> \in DOMAIN S.do THEN S.do[<<p, a>>] ELSE "pass"

(* all plugins ps are asked, in some order; the outcomes are
   [ok, r: the record amended, calls, die: plugins that ended] *)
RECURSIVE Ask(_, _, _, _, _, _)
Ask(S, a, id, r, ps, calls) ==
  IF ps = {} THEN {[ok |-> TRUE, r |-> r, calls |-> calls, die |-> {}]}
  ELSE UNION {
    LET k == Append(calls, [p |-> p, a |-> a, id |-> id, r |-> r])
        d == Does(S, p, a)
    IN CASE d = "gone" -> {[ok |-> FALSE, r |-> r, calls |-> calls, die |-> {}]}
         [] d = "veto" -> {[ok |-> FALSE, r |-> r, calls |-> k, die |-> {}]}
         [] d = "die"  -> {[ok |-> FALSE, r |-> r, calls |-> k, die |-> {p}]}
         [] d = "amend" -> Ask(S, a, id, [r EXCEPT !.um = Upd(@, Signed(p), a)], ps \ {p}, k)
         [] d = "lock" /\ a \in EntityActions -> Ask(S, a, id, [r EXCEPT !.lk = TRUE], ps \ {p}, k)
         [] OTHER -> Ask(S, a, id, r, ps \ {p}, k) : p \in ps}
Asked(S, a, id, r, calls) == Ask(S, a, id, r, S.pl, calls)

Fails(S, calls, die, err) == [ok |-> FALSE, S |-> [S EXCEPT !.dead = @ \cup die], calls |-> calls, err |-> err]
Works(S, calls) == [ok |-> TRUE, S |-> S, calls |-> calls, err |-> {}]

(* the check of a secret, around which plugins are asked *)
Validate(S, id, s) ==
  IF id \notin DOMAIN S.e THEN {Fails(S, <<>>, {}, {})}
  ELSE UNION {
    IF ~o.ok \/ o.r.lk \/ o.r.sec # s THEN {Fails(S, o.calls, o.die, {})}
    ELSE {IF q.ok THEN Works(SetE(S, id, q.r), q.calls) ELSE Fails(S, q.calls, q.die, {}) :
            q \in Asked(S, "PostAuthCheck", id, o.r, o.calls)}
    : o \in Asked(S, "PreAuthCheck", id, S.e[id], <<>>)}

SetSecret(S, id, s, calls) ==
  IF id \notin DOMAIN S.e THEN {Fails(S, calls, {}, {})}
  ELSE UNION {
    IF ~o.ok THEN {Fails(S, o.calls, o.die, {})}
    ELSE {IF q.ok THEN Works(SetE(S, id, q.r), q.calls) ELSE Fails(S, q.calls, q.die, {}) :
            q \in Asked(S, "PostSecretChange", id, [o.r EXCEPT !.sec = s], o.calls)}
    : o \in Asked(S, "PreSecretChange", id, S.e[id], calls)}

ChangeSecret(S, c) ==
  LET p == PreErr(S, c) IN
  IF p \in {"", "PermissionDenied"} /\ Claims(S, c).id = c.id THEN
    UNION {IF v.ok THEN SetSecret(v.S, c.id, c.sec, v.calls) ELSE {[v EXCEPT !.err = {"Unauthenticated"}]} : v \in Validate(S, c.id, c.old)}
  ELSE IF p # "" THEN {Fails(S, <<>>, {}, {p})}
  ELSE SetSecret(S, c.id, c.sec, <<>>)

(* every other request that modifies something *)
Change(S, c, n) ==
  LET m == Modify(S, c, n)
      a == Action(c)
      ent == a \in EntityActions
      id == IF ent THEN c.id ELSE c.g
      gone == a \in {"EntityDestroy", "GroupDestroy"}
      r == IF ent THEN (IF gone THEN S.e[id] ELSE m.S.e[id]) ELSE (IF gone THEN S.g[id] ELSE m.S.g[id])
      \* what cannot be stored may be noticed only when it is stored
      late == /\ c.op \in {"EntityCreate", "GroupCreate"} /\ AuthErr(S, c) = "" /\ BadName(id)
              /\ IF ent THEN id \notin DOMAIN S.e ELSE id \notin DOMAIN S.g
      num == IF c.num = -1 THEN n ELSE c.num
  IN IF ~m.ok THEN
          (IF late THEN {Fails(S, o.calls, o.die, {}) : o \in Asked(S, a, id, IF ent THEN NewEnt(num, c.sec) ELSE NewGrp(num, c.dn, c.mb), <<>>)} ELSE {})
          \cup {Fails(IF c.op \in {"GroupAddMember", "GroupDelMember"} THEN st ELSE S, <<>>, {}, m.err) :
                      st \in IF c.op \in {"GroupAddMember", "GroupDelMember"} /\ ~Bad(c) THEN MemberRun(S, c, 1).states ELSE {S}}
     ELSE IF a = "" THEN {Works(m.S, <<>>)}
     ELSE {IF ~o.ok THEN Fails(S, o.calls, o.die, {})
           ELSE IF gone THEN Works(m.S, o.calls)
           ELSE Works(IF ent THEN SetE(m.S, id, o.r) ELSE SetG(m.S, id, o.r), o.calls) : o \in Asked(S, a, id, r, <<>>)}

(* err = {} stands for any error *)
PlugRun(S, c, n) ==
  CASE c.op = "Plug" -> {Works([S EXCEPT !.do = IF c.do = "pass" THEN Without(@, <<c.p, c.a>>) ELSE With(@, <<c.p, c.a>>, c.do)], <<>>)}
    [] c.op = "Restart" ->
         {Works([IF Get(c, "bid", "") = "" THEN S ELSE Bootstrapped(S, c.bid, c.bsec, n) EXCEPT !.dead = {}, !.ro = c.ro], <<>>)}
    [] c.op \in {"AuthEntity", "AuthGetToken"} -> {[v EXCEPT !.err = {"Unauthenticated"}] : v \in Validate(S, c.id, c.sec)}
    [] c.op = "AuthChangeSecret" -> ChangeSecret(S, c)
    [] c.op = "SystemStatus" -> IF S.dead = {} /\ ~S.sick THEN {Works(S, <<>>)} ELSE {[Works(S, <<>>) EXCEPT !.err = {"sick"}]}
    [] c.op \in MutatingEnt \cup MutatingGrp \cup {"SystemCapabilities"} /\ (Mutating(c) \/ Bad(c)) -> Change(S, c, n)
    [] OTHER -> LET q == Query(S, c) IN {IF q.ok THEN Works(S, <<>>) ELSE Fails(S, <<>>, {}, q.err)}

(* how often plugin p was asked for action a *)
Times(calls, p, a) == Cardinality({j \in 1..Len(calls) : calls[j].p = p /\ calls[j].a = a})
Expected(c) == CASE c.op \in {"AuthEntity", "AuthGetToken"} -> {{"PreAuthCheck", "PostAuthCheck"}}
                 [] c.op = "AuthChangeSecret" -> {{"PreSecretChange", "PostSecretChange"},
                                                  {"PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange"}}
                 [] OTHER -> IF Action(c) = "" THEN {{}} ELSE {{Action(c)}}
=============================================================================
