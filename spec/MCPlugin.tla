------------------------------ MODULE MCPlugin ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Ops, Acts, Export
VARIABLES S, last
MBase(k)  == k
MUpper(k) == k
MBad(k)   == k \in {"", ".", "..", "a/b"}
MColon(k) == k \in {"k:", "ssh:"}
INSTANCE Plugin WITH Base <- MBase, Upper <- MUpper, BadName <- MBad, Colon <- MColon

(* the state after the requests every replay begins with *)
Fn0 == [x \in {} |-> 0]
I0 == [e |-> [x \in {"root", "e1"} |-> IF x = "root" THEN [NewEnt(1, "rootpw") EXCEPT !.caps = {ROOT}] ELSE NewEnt(2, "s1")],
       g |-> [x \in {"g1"} |-> NewGrp(1, "d", "")], ro |-> FALSE,
       toks |-> [x \in {"T0", "t_e1"} |-> IF x = "T0" THEN [id |-> "root", caps |-> {ROOT}] ELSE [id |-> "e1", caps |-> {}]],
       pl |-> {"p", "q"}, do |-> Fn0, dead |-> {}, sick |-> FALSE]

T2 == {"T0", "t_e1"}
CallsOf(op) ==
  CASE op = "AuthEntity" -> [op : {op}, id : {"e1"}, sec : {"s1", "s2"}]
    [] op = "AuthGetToken" -> [op : {op}, id : {"e1"}, sec : {"s1"}, as : {"t_e1"}]
    [] op = "AuthChangeSecret" -> [op : {op}, id : {"e1"}, old : {"s1", "s2"}, sec : {"s1", "s2"}, tok : T2]
    [] op = "EntityCreate" -> [op : {op}, id : {"e1", "e2"}, num : {7}, sec : {"s1"}, tok : T2]
    [] op \in {"EntityDestroy", "EntityLock", "EntityUnlock"} -> [op : {op}, id : {"e1"}, tok : T2]
    [] op = "EntityUpdate" -> [op : {op}, id : {"e1"}, meta : {<<<<"Shell", "x">>>>, <<<<"Shell", "">>>>}, tok : T2]
    [] op = "EntityUM" -> [op : {op}, id : {"e1"}, act : {"UPSERT"}, key : {"k"}, val : {"v"}, tok : T2]
                          \cup [op : {op}, id : {"e1"}, act : {"CLEARFUZZY", "CLEAREXACT"}, key : {"k", "by-p"}, val : {""}, tok : {"T0"}]
                          \cup [op : {op}, id : {"e1"}, act : {"READ"}, key : {"*"}, val : {""}, tok : {""}]
    [] op = "GroupUM" -> [op : {op}, g : {"g1"}, act : {"UPSERT"}, key : {"k"}, val : {"v"}, tok : T2]
                          \cup [op : {op}, g : {"g1"}, act : {"CLEARFUZZY", "CLEAREXACT"}, key : {"k", "by-p"}, val : {""}, tok : {"T0"}]
    [] op = "GroupCreate" -> [op : {op}, g : {"g1", "g2"}, num : {7}, dn : {"d"}, mb : {""}, tok : T2]
    [] op = "GroupUpdate" -> [op : {op}, g : {"g1"}, dn : {"d", "x"}, tok : T2]
    [] op = "GroupDestroy" -> [op : {op}, g : {"g1"}, tok : T2]
    [] op = "EntityKeys" -> [op : {op}, id : {"e1"}, act : {"ADD", "DROP"}, typ : {"SSH"}, key : {"A"}, tok : {"T0"}]
    [] op = "EntityKVAdd" -> [op : {op}, id : {"e1"}, key : {"k"}, vals : {<<<<"v", 1>>>>}, tok : {"T0"}]
    [] op = "EntityKVDel" -> [op : {op}, id : {"e1"}, key : {"k"}, tok : {"T0"}]
    [] op = "GroupAddMember" -> {[op |-> op, id |-> "e1", gs |-> <<"g1">>, tok |-> "T0"]}
    [] op = "SystemCapabilities" -> [op : {op}, direct : {TRUE}, tgt : {"e1"}, act : {"ADD"}, cap : {"LOCK_ENTITY"}, tok : {"T0"}]
                                    \cup [op : {op}, direct : {FALSE}, tgt : {"g1"}, act : {"ADD"}, cap : {"LOCK_ENTITY"}, tok : {"T0"}]
    [] op \in {"EntityInfo", "EntityGroups"} -> [op : {op}, id : {"e1"}]
    [] op = "SystemStatus" -> {[op |-> op]}
    [] op = "Restart" -> [op : {op}, ro : {FALSE}]
(* one plugin is told to behave in some way, or in none *)
PlugCalls(s) ==
  IF DOMAIN s.do = {} THEN [op : {"Plug"}, p : {"p"}, a : Acts, do : {"veto", "amend", "die"}]
                           \cup [op : {"Plug"}, p : {"p"}, a : Acts \cap EntityActions, do : {"lock"}]
                           \cup [op : {"Plug"}, p : {"q"}, a : Acts, do : {"veto"}]
  ELSE {[op |-> "Plug", p |-> k[1], a |-> k[2], do |-> "pass"] : k \in DOMAIN s.do}
MCalls(s) == UNION {CallsOf(op) : op \in Ops} \cup PlugCalls(s)
MRun(s, c) == {[o EXCEPT !.S = IF o.ok /\ c.op = "AuthGetToken" THEN [@ EXCEPT !.toks = With(@, c.as, [id |-> c.id, caps |-> CapsOf(o.S, c.id)])] ELSE @]
                 @@ [res |-> IF o.ok THEN "OK" ELSE "ERR"] : o \in PlugRun(s, c, 7)}
INSTANCE MCKit WITH Init0 <- I0, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>

Cc == last'.c
R == last'.r
Own(c) == c.op = "AuthChangeSecret" /\ Claims(S, c).id = c.id
C29 == [][/\ (\A p \in S.pl : \A a \in EntityActions \cup GroupActions : Times(R.calls, p, a) <= 1)
          \* all are asked, exactly once, about what succeeded
          /\ (R.ok => \E A \in Expected(Cc) : \A p \in S.pl : \A a \in EntityActions \cup GroupActions : (Times(R.calls, p, a) = 1) <=> a \in A)
          /\ (\A j \in 1..Len(R.calls) : \E A \in Expected(Cc) : R.calls[j].a \in A)
          \* who objects prevails
          /\ (\A j \in 1..Len(R.calls) : Does(S, R.calls[j].p, R.calls[j].a) \in {"veto", "die"} => ~R.ok /\ j = Len(R.calls))
          /\ (~R.ok /\ ~Own(Cc) => S'.e = S.e /\ S'.g = S.g)
          \* amendments are stored
          /\ (R.ok /\ Cc.op \notin {"Plug", "Restart", "EntityDestroy", "GroupDestroy"} =>
                \A j \in 1..Len(R.calls) : Does(S, R.calls[j].p, R.calls[j].a) = "amend" =>
                  LET a == R.calls[j].a
                      um == IF a \in EntityActions THEN S'.e[R.calls[j].id].um ELSE S'.g[R.calls[j].id].um
                  IN \E pr \in um : pr[1] = Signed(R.calls[j].p))
          \* a plugin that is gone fails everything it would be asked about
          /\ (S.dead # {} /\ R.ok => Len(R.calls) = 0)]_<<S, last>>
(* nobody objects and nobody amends: as if there were no plugins *)
C29b == [][DOMAIN S.do = {} /\ S.dead = {} /\ Cc.op \notin {"Plug", "Restart"} =>
            IF Cc.op \in MutatingEnt \cup MutatingGrp \cup {"SystemCapabilities"} /\ Mutating(Cc)
            THEN LET m == Modify(S, Cc, 7) IN (R.ok <=> m.ok) /\ (m.ok => S'.e = m.S.e /\ S'.g = m.S.g)
            ELSE IF Cc.op = "AuthChangeSecret" THEN LET m == Modify(S, Cc, 0) IN (R.ok <=> m.ok) /\ (IF m.ok THEN S'.e = m.S.e ELSE S'.e = S.e)
            ELSE Cc.op # "SystemStatus" => (R.ok <=> Query(S, Cc).ok) /\ S'.e = S.e /\ S'.g = S.g]_<<S, last>>
Small == \A x \in DOMAIN S.e : Cardinality(S.e[x].um) <= 2
=============================================================================
