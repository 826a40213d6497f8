---------------------------- MODULE TraceHealth -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
INSTANCE Health
Norm(x) == IF x[2] = JwtName THEN <<x[1], x[2], "">> ELSE <<x[1], x[2], x[3]>>
Counts(l) == [x \in {Norm(l[j]) : j \in DOMAIN l} |-> Cardinality({j \in DOMAIN l : Norm(l[j]) = x})]
\* a failing check without name and message can not be told from none
Silent(s) == Quiet \in Failing(s)
Firsts(L) == {Norm(L.first[j]) : j \in DOMAIN L.first}
Line(x) == "[" \o (IF x[1] THEN "PASS" ELSE "FAIL") \o "]  " \o x[2] \o "\t" \o x[3]
Same(s, L, r) ==
  /\ L.res = r.res
  /\ (L.op \in {"Status", "Local"} =>
        /\ L.ok = r.ok
        /\ Counts(L.subs) = r.subs
        /\ Len(L.first) <= 1
        /\ (Firsts(L) = r.first \/ (L.op = "Local" /\ r.first = {Quiet} /\ L.first = <<>>)))
  /\ (L.op = "Local" =>
        \* the text shows the same
        /\ L.text[1] = "System Check Status: " \o (IF r.ok THEN "PASS" ELSE "FAIL")
        /\ \A j \in DOMAIN L.subs : L.subs[j][3] # "" => \E k \in DOMAIN L.text : L.text[k] = Line(L.subs[j]))
Call(L) == IF L.op = "Set" THEN [L EXCEPT !.v = <<L.v[1], L.v[2], L.v[3]>>] ELSE L
TJudge(s, L) ==
  IF L.op = "CRASH" THEN [tags |-> {"C31", "C35"}, S |-> s]
  ELSE LET rs == HealthRun(s, Call(L))
           ok == {r \in rs : Same(s, L, r)} IN
       [tags |-> IF ok = {} THEN {"C31"} ELSE {}, S |-> (CHOOSE r \in (IF ok # {} THEN ok ELSE rs) : TRUE).S]
TZero(L) == HZ
TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
