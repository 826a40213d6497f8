----------------------------- MODULE MCFail2lock -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Allowed, Interval, Admin, Export
VARIABLES S, last
MBase(k)  == k
MUpper(k) == k
MBad(k)   == k \in {"", ".", "..", "a/b"}
MColon(k) == k \in {"k:", "ssh:"}
INSTANCE Fail2lock WITH Base <- MBase, Upper <- MUpper, BadName <- MBad, Colon <- MColon

(* failures are kept as how long they are ago; h: the attempts, as far as
   they matter: <<id, age, right>>, the oldest first *)
Fn0 == [x \in {} |-> <<>>]
I0 == [e |-> [x \in {"root", "e1", "e2"} |-> IF x = "root" THEN [NewEnt(1, "rootpw") EXCEPT !.caps = {ROOT}] ELSE NewEnt(2, "s1")],
       g |-> Fn0, ro |-> FALSE, toks |-> [x \in {"T0"} |-> [id |-> "root", caps |-> {ROOT}]], f |-> Fn0, h |-> <<>>]
Lately(s, id) == Cardinality({j \in 1..Len(Failures(s, id)) : Failures(s, id)[j] < Interval})
Older(q) == SelectSeq([j \in 1..Len(q) |-> q[j] + 1], LAMBDA x : x < Interval)
MCalls(s) ==
  [op : {"AuthEntity"}, id : {"e1", "e2"}, sec : {"s1", "s2"}] \cup {[op |-> "Tick"]}
  \cup (IF Admin THEN [op : {"EntityLock", "EntityUnlock"}, id : {"e1"}, tok : {"T0"}]
                      \cup [op : {"EntityUM"}, id : {"e1"}, act : {"UPSERT"}, key : {"fail2lock"}, val : {"RESET", "x"}, tok : {"T0"}]
                      \cup [op : {"AuthChangeSecret"}, id : {"e1"}, old : {"s1", "s2"}, sec : {"s2"}, tok : {"T0"}]
                      \cup {[op |-> "Restart", ro |-> FALSE]}
       ELSE {})
Note(s, h) == [s EXCEPT !.h = h]
MRun(s, c) ==
  LET R(ok, t) == {[res |-> IF ok THEN "OK" ELSE "ERR", S |-> t]} IN
  CASE c.op = "Tick" ->
         LET t == [s EXCEPT !.f = LET o == [x \in DOMAIN @ |-> Older(@[x])] IN [x \in {x \in DOMAIN o : o[x] # <<>>} |-> o[x]],
                            !.h = SelectSeq([j \in 1..Len(@) |-> <<@[j][1], @[j][2] + 1, @[j][3]>>], LAMBDA q : q[2] < Interval)]
         IN R(TRUE, t)
    [] c.op = "Restart" -> R(TRUE, Note(Restarted(s), <<>>))
    [] c.op = "AuthEntity" -> LET o == Attempt(s, c.id, c.sec, Lately(s, c.id) >= Allowed, 0)
                                  ev == <<c.id, 0, Authentic(s, c.id, c.sec)>>
                                  clean(q) == SelectSeq(q, LAMBDA x : x[1] # c.id)
                              IN R(o.ok, Note(o.S, IF o.ok \/ Marked(s.e[c.id]) THEN clean(s.h)
                                                   ELSE IF Cardinality({j \in 1..Len(s.h) : s.h[j][1] = c.id}) >= Allowed THEN s.h
                                                   ELSE Append(s.h, ev)))
    [] OTHER -> LET m == Modify(s, c, 7) IN IF m.ok THEN R(TRUE, m.S) ELSE R(FALSE, s)
INSTANCE MCKit WITH Init0 <- I0, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>

Cc == last'.c
R == last'.r.res
Att == Cc.op = "AuthEntity"
Own(s, id) == Cardinality({j \in 1..Len(s.h) : s.h[j][1] = id})
C30 == [][/\ (Att => /\ (R = "OK" => Authentic(S, Cc.id, Cc.sec))
                     \* too many failures in a row lately: refused, whatever the secret
                     /\ (Own(S, Cc.id) >= Allowed /\ ~Marked(S.e[Cc.id]) => R # "OK")
                     \* otherwise the right secret does
                     /\ (Authentic(S, Cc.id, Cc.sec) /\ (Own(S, Cc.id) < Allowed \/ Marked(S.e[Cc.id])) => R = "OK")
                     \* nobody else is affected
                     /\ \A x \in DOMAIN S.e \ {Cc.id} : Own(S', x) = Own(S, x) /\ Lately(S', x) = Lately(S, x) /\ S'.e[x] = S.e[x]
                     \* a refusal stores nothing
                     /\ (R # "OK" => S'.e = S.e))
          /\ (\A x \in DOMAIN S'.e : Lately(S', x) <= Allowed)]_<<S, last>>
=============================================================================
