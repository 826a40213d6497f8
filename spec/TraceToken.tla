----------------------------- MODULE TraceToken -----------------------------
(* Judges traces of tokens presented to a real server. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Token

Range(f) == {f[x] : x \in DOMAIN f}
Denials == {"Unauthenticated", "InvalidArgument"}
Crash == {"HANG", "CRASH", "Unknown"}

Craft(r) == [key |-> r.key, alg |-> r.alg, win |-> r.win, eid |-> r.eid, caps |-> Range(r.caps)]
Call(L) == IF L.op = "Use" THEN [L EXCEPT !.craft = IF L.src = "" THEN Craft(L.craft) ELSE L.craft] ELSE L

\* a short-lived token presented so late that either answer is right
Late(L) == "late" \in DOMAIN L /\ L.late
Same(L, r) ==
  CASE Late(L) -> TRUE
    [] r.res = "REFUSED" -> L.res \in Denials \cup {"PermissionDenied"} /\ ~L.chg
    [] r.res = "PermissionDenied" -> L.res = "PermissionDenied" /\ ~L.chg
    [] r.res = "ACCEPTED" -> L.res \notin Denials \cup Crash \cup {"PermissionDenied", "DOWN"}
    [] L.op = "Get" -> L.res = r.res /\ L.out.id = r.out.id /\ Range(L.out.caps) = r.out.caps /\ L.out.life = r.out.life
    [] OTHER -> L.res = r.res

Tag(L, r) ==
  CASE L.op = "Get" -> IF L.res = "OK" /\ r.res = "OK"
                       THEN (IF L.out.life # r.out.life THEN {"C08"} ELSE {}) \cup (IF L.out.id # r.out.id \/ Range(L.out.caps) # r.out.caps THEN {"C09"} ELSE {})
                       ELSE (IF r.res = "Unauthenticated" THEN {"C01"} ELSE {"C08"})
    [] L.op = "Use" -> IF r.res = "PermissionDenied" THEN {"C05"} ELSE {"C08"}
    [] OTHER -> {"C08"}

TJudge(s, L) ==
  IF L.op = "CRASH" THEN [tags |-> {"C08", "C35"}, S |-> s]
  ELSE LET rs == TokRun(s, Call(L))
           ok == {r \in rs : Same(L, r)}
           r == IF ok # {} THEN CHOOSE x \in ok : TRUE ELSE CHOOSE x \in rs : TRUE
           \* generated private keys are readable by the server only
           km == IF L.op = "Restart" /\ "kmode" \in DOMAIN L /\ L.kmode # "400" THEN {"C08"} ELSE {}
           \* after a deviation at the start, what runs is what was recorded
           nx == IF L.op = "Restart" /\ ok = {} THEN (IF L.res = "OK" THEN [s EXCEPT !.live = s.disk] ELSE [s EXCEPT !.live = [pub |-> "down", priv |-> "none"]])
                 ELSE IF L.op = "Get" /\ L.res # "OK" THEN s
                 ELSE r.S
       IN [tags |-> (IF ok = {} THEN Tag(L, r) ELSE {}) \cup km, S |-> nx]
TZero(L) == TZ

TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
