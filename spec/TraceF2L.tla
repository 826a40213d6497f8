------------------------------ MODULE TraceF2L ------------------------------
(***************************************************************************)
(* Judges recorded executions of netauthd with the fail2lock plugin against *)
(* Fail2lock.tla.  When a request was handled is known up to the time of    *)
(* its line, [t0, t1]; where the verdict depends on more than that, either  *)
(* is accepted.  A failure is kept as [a, b, sure]: it was between a and b, *)
(* if it counted at all.                                                    *)
(***************************************************************************)
EXTENDS Trace

F == INSTANCE Fail2lock WITH Base <- TBase, Upper <- TUpper, BadName <- TBad, Colon <- TColon

ZeroF(L) == LET o == Get(L, "f2l", Empty) IN
            ZeroS @@ [f |-> Empty, allowed |-> Get(o, "allowed_fails", 3), ms |-> Get(o, "ms", 900000)]

Surely(s, id, L) == LET q == F!Failures(s, id) IN Cardinality({j \in 1..Len(q) : q[j].sure /\ q[j].a > L.t1 - s.ms}) >= s.allowed
Maybe(s, id, L)  == LET q == F!Failures(s, id) IN Cardinality({j \in 1..Len(q) : q[j].b > L.t0 - s.ms - 2}) >= s.allowed
Overs(s, id, L) == IF Surely(s, id, L) THEN {TRUE} ELSE IF Maybe(s, id, L) THEN {TRUE, FALSE} ELSE {FALSE}

Own(s, c) == c.op = "AuthChangeSecret" /\ PreErr(s, c) \in {"", "PermissionDenied"} /\ Claims(s, c).id = c.id
Attempts(s, c) == c.op \in {"AuthEntity", "AuthGetToken"} \/ Own(s, c)

(* the outcomes of an attempt to authenticate, and of what follows it *)
Outcomes(s, L) ==
  {LET o == F!Attempt(s, L.id, IF L.op = "AuthChangeSecret" THEN L.old ELSE L.sec, v, [a |-> L.t0 - 2, b |-> L.t1, sure |-> Cardinality(Overs(s, L.id, L)) = 1])
   IN IF o.ok /\ L.op = "AuthChangeSecret" THEN [o EXCEPT !.S = SetE(@, L.id, [@.e[L.id] EXCEPT !.sec = L.sec])] ELSE o
   : v \in Overs(s, L.id, L)}

(* Attempts side by side, on entities without a marker: what is certain of
   them is that the first failures count, as long as there is room. *)
ParJudge(s, L, O) ==
  LET H == L.hist
      Of(x) == {k \in DOMAIN H : H[k].c.id = x}
      Fails(x) == {k \in Of(x) : H[k].res # "OK"}
      poss(x) == LET q == F!Failures(s, x) IN Cardinality({j \in 1..Len(q) : q[j].b > L.t0 - s.ms - 2})
      fine(x) ==
        /\ \A k \in Of(x) : H[k].res \notin DeadCodes
        /\ \A k \in Of(x) : H[k].res = "OK" => Authentic(s, x, H[k].c.sec)
        /\ \A k \in Fails(x) : Authentic(s, x, H[k].c.sec) => poss(x) + Cardinality(Fails(x)) - 1 >= s.allowed
        /\ (Surely(s, x, L) => Fails(x) = Of(x))
      pad(q, n, b) == q \o [j \in 1..n |-> [a |-> L.t0 - 2, b |-> L.t1, sure |-> b]]
      after(x) == LET n == Cardinality(Fails(x))
                      m == IF poss(x) >= s.allowed THEN 0 ELSE IF n < s.allowed - poss(x) THEN n ELSE s.allowed - poss(x)
                  IN IF Fails(x) = Of(x) THEN pad(pad(F!Failures(s, x), m, TRUE), n - m, FALSE)
                     ELSE pad([j \in DOMAIN F!Failures(s, x) |-> [F!Failures(s, x)[j] EXCEPT !.sure = FALSE]], n, FALSE)
      ids == {H[k].c.id : k \in DOMAIN H} \cap DOMAIN s.e
  IN [tags |-> (IF \A x \in ids : fine(x) THEN {} ELSE {"C30"}) \cup (IF Same(s, O) THEN {} ELSE {"C30", "C36"})
               \cup (IF \E k \in DOMAIN H : H[k].res \in DeadCodes THEN {"C30", "C35"} ELSE {}),
      S |-> [O EXCEPT !.f = [x \in ids |-> after(x)] @@ @]]

FJudge(s, L, O) ==
  IF L.op = "CRASH" \/ L.res \in DeadCodes THEN [tags |-> {"C30", "C35"}, S |-> O]
  ELSE IF L.op \in {"Restart", "Wait", "Plug"} THEN
    [tags |-> IF L.op # "Restart" THEN (IF Same(s, O) THEN {} ELSE {"C36"}) ELSE RestartTags(s, L, O),
     S |-> [O EXCEPT !.f = IF L.op = "Restart" THEN Empty ELSE @, !.ro = IF L.op = "Restart" THEN L.ro ELSE @]]
  ELSE IF L.op = "Par" THEN ParJudge(s, L, O)
  ELSE IF ~Attempts(s, L) THEN [tags |-> CallTags(s, L, L, O), S |-> O]
  ELSE LET os == {o \in Outcomes(s, L) : Same(o.S, O) /\ (o.ok <=> L.res = "OK")
                                          /\ (o.ok /\ L.op = "AuthGetToken" => L.out.id = L.id /\ Range(L.out.caps) = CapsOf(o.S, L.id))}
       IN IF os = {} THEN [tags |-> {"C30"} \cup Leak(L), S |-> O]
          \* where an attempt counts in one of two outcomes only, it may count
          ELSE LET o == CHOOSE o \in os : \A p \in os : Len(F!Failures(o.S, L.id)) >= Len(F!Failures(p.S, L.id))
               IN [tags |-> Leak(L), S |-> [O EXCEPT !.f = o.S.f]]

FStep ==
  LET L == Lines[i] IN
  IF L.op = "Reset" THEN S' = ZeroF(L) /\ nbad' = nbad
  ELSE LET O == Observed(S, L)
           r == FJudge(S, L, O)
       IN /\ IF r.tags = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> i, tags |-> r.tags]))
          /\ nbad' = nbad + (IF r.tags = {} THEN 0 ELSE 1)
          /\ S' = [r.S EXCEPT !.toks = NewToks(S, L, L)]

FInit == i = 2 /\ S = ZeroF([op |-> "Reset"]) /\ memo = Empty /\ nbad = 0
FNext == i <= Len(Lines) /\ FStep /\ i' = i + 1 /\ memo' = memo
FSpec == FInit /\ [][FNext]_vars
=============================================================================
