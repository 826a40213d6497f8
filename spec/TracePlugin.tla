----------------------------- MODULE TracePlugin -----------------------------
(***************************************************************************)
(* Judges recorded executions of netauthd with plugins against Plugin.tla. *)
(* Lines say which plugins were asked about what meanwhile.                *)
(***************************************************************************)
EXTENDS Trace

P == INSTANCE Plugin WITH Base <- TBase, Upper <- TUpper, BadName <- TBad, Colon <- TColon

ZeroP(L) ==
  LET ps == Range(Get(L, "plugins", <<>>))
      bad == {p \in ps : p \in {"!exit", "!noexec", "!garbage"}}
  IN ZeroS @@ [pl |-> ps \ bad, do |-> Empty, dead |-> {}, sick |-> bad # {}]

Plugged(c) == IsMod(c) \/ c.op \in {"AuthEntity", "AuthGetToken", "SystemStatus", "Plug", "Restart"}

(* what was asked, as the specification says it *)
SameCall(k, a) ==
  /\ k.p = a.p /\ k.a = a.a /\ k.id = a.id
  /\ a.rec.id = k.id
  /\ IF a.a \in P!EntityActions THEN CE(a.rec) = NoSec(k.r) ELSE CG(a.rec) = k.r
SameCalls(ks, as) == Len(ks) = Len(as) /\ \A j \in 1..Len(ks) : SameCall(ks[j], as[j])
(* with what secret, where there is one *)
DataOK(c, a) == IF a.a \in {"PreAuthCheck", "PostAuthCheck"} /\ c.op = "AuthChangeSecret" THEN a.data = <<c.id, c.old>>
                ELSE IF a.a \in {"PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange"} THEN a.data = <<c.id, c.sec>>
                ELSE TRUE

BadNames(s) == {"plugin-" \o p : p \in s.dead} \cup (IF s.sick THEN {"plugin-broken"} ELSE {})

OutOK(o, c, L) ==
  CASE c.op = "AuthGetToken" -> L.out.id = c.id /\ Range(L.out.caps) = CapsOf(o.S, c.id)
    [] c.op = "SystemStatus" -> L.out.ok = (BadNames(o.S) = {}) /\ Range(L.out.bad) = BadNames(o.S)
    [] OTHER -> TRUE

(* the storing of what a plugin amended is judged with the numbers given *)
Explains(o, L, O) ==
  /\ Same(o.S, O)
  /\ IF o.ok THEN L.res = "OK" /\ OutOK(o, L, L) ELSE L.res \notin {"OK"} \cup DeadCodes
  /\ L.op # "Restart" => /\ SameCalls(o.calls, L.asked)
                         /\ \A j \in 1..Len(L.asked) : DataOK(L, L.asked[j])

Kept(L, O) == \/ L.op = "EntityCreate" /\ L.id \in DOMAIN O.e
              \/ L.op = "GroupCreate" /\ L.g \in DOMAIN O.g
PNums(L, O) == IF L.op = "Restart" /\ Get(L, "bid", "") \in DOMAIN O.e THEN {O.e[L.bid].num}
               ELSE IF Kept(L, O) THEN NumsIn(O, L, 0)
               ELSE IF L.asked # <<>> THEN {L.asked[1].rec.num} ELSE {1}

(* A malformed request may still name a change (nothing, a group without a *)
(* name), so plugins may have been asked about it.                         *)
PJudge(s, L, O) ==
  IF L.op = "CRASH" \/ L.res \in DeadCodes THEN [tags |-> {"C29", "C35"} \cup (IF Get(L, "during", L.op) = "SystemStatus" THEN {"C31"} ELSE {}), S |-> O]
  ELSE IF ~Plugged(L) THEN [tags |-> CallTags(s, L, L, O) \cup (IF L.asked = <<>> \/ L.op = "Malformed" THEN {} ELSE {"C29"}),
                              S |-> [O EXCEPT !.dead = @ \cup {a.p : a \in {b \in Range(L.asked) : P!Does(O, b.p, b.a) = "die"}}]]
  ELSE LET os == {o \in UNION {P!PlugRun(s, L, n) : n \in PNums(L, O)} : Explains(o, L, O)}
       IN IF os = {} THEN [tags |-> {"C29"} \cup Leak(L) \cup (IF L.op \in {"SystemStatus", "SystemPing"} THEN {"C31"} ELSE {}), S |-> O]
          ELSE LET o == CHOOSE o \in os : TRUE IN [tags |-> Leak(L), S |-> [O EXCEPT !.do = o.S.do, !.dead = o.S.dead, !.ro = o.S.ro]]

PStep ==
  LET L == Lines[i] IN
  IF L.op = "Reset" THEN S' = ZeroP(L) /\ nbad' = nbad
  ELSE LET O == Observed(S, L)
           r == PJudge(S, L, O)
       IN /\ IF r.tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> r.tags]))
          /\ nbad' = nbad + (IF r.tags = {} THEN 0 ELSE 1)
          /\ S' = [r.S EXCEPT !.toks = NewToks(S, L, L)]

PInit == i = 2 /\ S = ZeroP([op |-> "Reset"]) /\ memo = Empty /\ nbad = 0
PNext == i <= Len(Lines) /\ PStep /\ i' = i + 1 /\ memo' = memo
PSpec == PInit /\ [][PNext]_vars
=============================================================================
