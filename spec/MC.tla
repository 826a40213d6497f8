--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of NetAuth.tla over small sets of names, checking *)
(* each property in a formulation of its own, and export of every          *)
(* transition for replay into the real server.                             *)
(*                                                                         *)
(* The explored requests and the prelude leading to the first state are    *)
(* chosen by the configuration.  The view is the server state: last only   *)
(* says which request led to it, and the ghost variable holds what an      *)
(* outside observer would derive from requests and answers alone.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Ops, E, G, Secs, UseToks, CapsC, UMK, UMV, KVK, KVV, KT, KK, Nums, MetaK, MetaV,
          Pre, MaxE, MaxG, MaxN, MaxLevel, Export

MBase(k)  == CASE k = "k{0}" -> "k" [] k = "k{1}" -> "k" [] OTHER -> k
MUpper(k) == CASE k = "ssh" -> "SSH" [] k = "pgp" -> "PGP" [] OTHER -> k
MBad(k)   == k \in {"", ".", "..", "a/b"}
MColon(k) == k \in {"k:", "ssh:"}
INSTANCE NetAuth WITH Base <- MBase, Upper <- MUpper, BadName <- MBad, Colon <- MColon

VARIABLES S, last, ghost
vars == <<S, last, ghost>>
View == S

T == {[tok |-> t] : t \in UseToks}
X(a, b) == {x @@ y : x \in a, y \in b}
R1(op) == [op |-> op]

(* the requests of a kind *)
CallsOf(op) ==
  CASE op = "AuthEntity" -> [op : {op}, id : E, sec : Secs]
    [] op = "AuthGetToken" -> {[op |-> op, id |-> x, sec |-> s, as |-> "t_" \o x] : x \in E, s \in Secs}
    [] op = "AuthValidateToken" -> [op : {op}, tok : UseToks]
    [] op = "AuthChangeSecret" -> [op : {op}, id : E, old : Secs, sec : Secs, tok : UseToks]
    [] op = "EntityCreate" -> [op : {op}, id : E, num : Nums, sec : Secs, tok : UseToks]
    [] op \in {"EntityDestroy", "EntityLock", "EntityUnlock"} -> [op : {op}, id : E, tok : UseToks]
    [] op \in {"EntityInfo", "EntityGroups"} -> [op : {op}, id : E]
    [] op = "EntityUpdate" -> {[op |-> op, id |-> x, meta |-> m, tok |-> t] :
                                 x \in E, t \in UseToks, m \in {<<>>} \cup {<<<<k, v>>>> : k \in MetaK, v \in MetaV \cup {""}}}
    [] op = "EntityUM" -> [op : {op}, id : E, act : {"UPSERT"}, key : UMK, val : UMV, tok : UseToks]
                          \cup [op : {op}, id : E, act : {"CLEARFUZZY", "CLEAREXACT", "DROP"}, key : UMK, val : {""}, tok : UseToks]
                          \cup [op : {op}, id : E, act : {"READ"}, key : UMK \cup {"*"}, val : {""}, tok : {""}]
    [] op = "GroupUM" -> [op : {op}, g : G, act : {"UPSERT"}, key : UMK, val : UMV, tok : UseToks]
                         \cup [op : {op}, g : G, act : {"CLEARFUZZY", "CLEAREXACT", "DROP"}, key : UMK, val : {""}, tok : UseToks]
                         \cup [op : {op}, g : G, act : {"READ"}, key : UMK \cup {"*"}, val : {""}, tok : {""}]
    [] op = "EntityKeys" -> [op : {op}, id : E, act : {"ADD"}, typ : KT, key : KK, tok : UseToks]
                            \cup [op : {op}, id : E, act : {"DROP", "UPSERT"}, typ : KT \cup {""}, key : KK \cup {""}, tok : UseToks]
                            \cup [op : {op}, id : E, act : {"READ"}, typ : {""}, key : {""}, tok : {""}]
    [] op = "EntityKVGet" -> [op : {op}, id : E, key : KVK \cup {"*"}]
    [] op \in {"EntityKVAdd", "EntityKVReplace"} -> [op : {op}, id : E, key : KVK, vals : KVV, tok : UseToks]
    [] op = "EntityKVDel" -> [op : {op}, id : E, key : KVK, tok : UseToks]
    [] op = "GroupKVGet" -> [op : {op}, g : G, key : KVK \cup {"*"}]
    [] op \in {"GroupKVAdd", "GroupKVReplace"} -> [op : {op}, g : G, key : KVK, vals : KVV, tok : UseToks]
    [] op = "GroupKVDel" -> [op : {op}, g : G, key : KVK, tok : UseToks]
    [] op = "GroupCreate" -> [op : {op}, g : G, num : Nums, dn : {""}, mb : {""}, tok : UseToks]
    [] op = "GroupCreateMB" -> [op : {"GroupCreate"}, g : G, num : Nums, dn : {"d"}, mb : G \cup {""}, tok : UseToks]
    [] op = "GroupUpdate" -> [op : {op}, g : G, dn : MetaV, tok : UseToks] \cup [op : {op}, g : G, mb : G \cup {""}, tok : UseToks]
    [] op = "GroupDestroy" -> [op : {op}, g : G, tok : UseToks]
    [] op \in {"GroupInfo", "GroupMembers"} -> [op : {op}, g : G]
    [] op = "GroupUpdateRules" -> [op : {op}, g : G, tgt : G, act : {"INCLUDE", "EXCLUDE", "REMOVE_RULE"}, tok : UseToks]
    [] op \in {"GroupAddMember", "GroupDelMember"} -> {[op |-> op, id |-> x, gs |-> <<g>>, tok |-> t] : x \in E, g \in G, t \in UseToks}
    [] op \in {"AddTwo", "DelTwo"} -> {[op |-> IF op = "AddTwo" THEN "GroupAddMember" ELSE "GroupDelMember", id |-> x, gs |-> <<g, h>>, tok |-> t] :
                              x \in E, g \in G, h \in G, t \in UseToks}
    [] op = "SystemCapabilities" -> [op : {op}, direct : {TRUE}, tgt : E, act : {"ADD", "DROP", "READ"}, cap : CapsC, tok : UseToks]
                                    \cup [op : {op}, direct : {FALSE}, tgt : G, act : {"ADD", "DROP", "CLEAREXACT"}, cap : CapsC, tok : UseToks]
    [] op = "Restart" -> [op : {op}, ro : {FALSE}]
    [] op = "RestartRO" -> [op : {"Restart"}, ro : {TRUE}]
    [] op = "Bootstrap" -> [op : {"Restart"}, ro : {FALSE}, bid : E, bsec : Secs]

Calls == UNION {CallsOf(op) : op \in Ops}

IsMod(c) == c.op \in MutatingEnt \cup MutatingGrp \cup {"AuthChangeSecret", "SystemCapabilities"}
            /\ (Mutating(c) \/ Bad(c))

(* automatic numbers are explored as the next free one; the trace
   specification admits any unused one *)
MaxOf(s) == CHOOSE m \in s \cup {0} : \A k \in s : k <= m
NextNumS(s, c) == IF c.op = "GroupCreate" THEN MaxOf(Numbers(s.g)) + 1 ELSE MaxOf(Numbers(s.e)) + 1
NextNum(c) == NextNumS(S, c)

Pick(errs) == IF "Internal" \in errs THEN "Internal" ELSE CHOOSE x \in errs : TRUE

Run(s, c, n) ==   \* [res, S, out]
  IF c.op = "Restart" THEN
    [res |-> "OK", out |-> {},
     S |-> [(IF "bid" \in DOMAIN c THEN Bootstrapped(s, c.bid, c.bsec, n) ELSE s) EXCEPT !.ro = c.ro]]
  ELSE IF IsMod(c) THEN
    LET m == Modify(s, c, n) IN
    IF m.ok THEN [res |-> "OK", out |-> {}, S |-> m.S]
    ELSE [res |-> Pick(m.err), out |-> {},
          S |-> IF c.op \in {"GroupAddMember", "GroupDelMember"} /\ ~Bad(c)
                THEN CHOOSE x \in MemberRun(s, c, 1).states : \A y \in MemberRun(s, c, 1).states :
                       IF c.id \notin DOMAIN s.e THEN TRUE
                       ELSE IF c.op = "GroupAddMember" THEN y.e[c.id].gr \subseteq x.e[c.id].gr
                            ELSE x.e[c.id].gr \subseteq y.e[c.id].gr
                ELSE s]
  ELSE LET m == Query(s, c) IN
    IF m.ok THEN [res |-> "OK", out |-> m.S,
                  S |-> IF c.op = "AuthGetToken" THEN [s EXCEPT !.toks = With(s.toks, c.as, m.S)] ELSE s]
    ELSE [res |-> Pick(m.err), out |-> {}, S |-> s]

Fn0 == [x \in {} |-> 0]
RootE == [NewEnt(1, "rootpw") EXCEPT !.caps = {ROOT}]
S0 == [e |-> [x \in {"root"} |-> RootE], g |-> Fn0, ro |-> FALSE,
       toks |-> [x \in {"T0"} |-> [id |-> "root", caps |-> {ROOT}]]]

RECURSIVE RunAll(_, _, _)
RunAll(s, cs, i) == IF i > Len(cs) THEN s
                    ELSE RunAll(Run(s, cs[i], NextNumS(s, cs[i])).S, cs, i + 1)

(***************************************************************************)
(* Preludes                                                                *)
(***************************************************************************)
CE1(x) == [op |-> "EntityCreate", id |-> x, num |-> -1, sec |-> "s1", tok |-> "T0"]
CG1(x, mb) == [op |-> "GroupCreate", g |-> x, num |-> -1, dn |-> "", mb |-> mb, tok |-> "T0"]
GT(x) == [op |-> "AuthGetToken", id |-> x, sec |-> "s1", as |-> "t_" \o x]
CapE(x, c) == [op |-> "SystemCapabilities", direct |-> TRUE, tgt |-> x, act |-> "ADD", cap |-> c, tok |-> "T0"]
CapG(x, c) == [op |-> "SystemCapabilities", direct |-> FALSE, tgt |-> x, act |-> "ADD", cap |-> c, tok |-> "T0"]
AM(x, g) == [op |-> "GroupAddMember", id |-> x, gs |-> <<g>>, tok |-> "T0"]
RU(g, t, a) == [op |-> "GroupUpdateRules", g |-> g, tgt |-> t, act |-> a, tok |-> "T0"]

PreNone == <<>>
PreE1 == <<CE1("e1")>>
PreE12 == <<CE1("e1"), CE1("e2")>>
PreG1 == <<CG1("g1", "")>>
PreE1T == <<CE1("e1"), GT("e1")>>
PreE12T == <<CE1("e1"), CE1("e2"), GT("e1"), GT("e2")>>
PreE12TC == <<CE1("e1"), CE1("e2"), CapE("e2", "CHANGE_ENTITY_SECRET"), GT("e1"), GT("e2")>>
PreG123 == <<CE1("e1"), CG1("g1", ""), CG1("g2", ""), CG1("g3", "")>>
PreG1234 == <<CE1("e1"), CG1("g1", ""), CG1("g2", ""), CG1("g3", ""), CG1("g4", "")>>
PreE1G1 == <<CE1("e1"), CG1("g1", "")>>
PreE1G12 == <<CE1("e1"), CG1("g1", ""), CG1("g2", "")>>
PreE12G12 == <<CE1("e1"), CE1("e2"), CG1("g1", ""), CG1("g2", "")>>
PreDeleg == <<CE1("e1"), CG1("g1", ""), CG1("g2", "g1"), CG1("g3", ""), GT("e1")>>
PreDeleg2 == <<CE1("e1"), CE1("e2"), CG1("g1", ""), CG1("g2", "g1"), AM("e1", "g1"), GT("e1")>>
\* a manager, and a group with something to do every group request to
PreDelegAll == PreDeleg2 \o <<[op |-> "GroupKVAdd", g |-> "g2", key |-> "k", vals |-> <<<<"v", 0>>>>, tok |-> "T0"]>>
PreG123m == <<CE1("e1"), CG1("g1", ""), CG1("g2", ""), CG1("g3", ""), AM("e1", "g1"), AM("e1", "g2")>>
PreE1G1T == <<CE1("e1"), CG1("g1", ""), GT("e1")>>
AllCaps == <<"CREATE_ENTITY", "DESTROY_ENTITY", "MODIFY_ENTITY_META", "MODIFY_ENTITY_KEYS",
             "CHANGE_ENTITY_SECRET", "LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP", "DESTROY_GROUP",
             "MODIFY_GROUP_META", "MODIFY_GROUP_MEMBERS", "GLOBAL_ROOT">>
Holder(k) == "h" \o ToString(k)
PreCaps == [k \in 1..12 |-> CE1(Holder(k))] \o [k \in 1..12 |-> CapE(Holder(k), AllCaps[k])]
           \o [k \in 1..12 |-> GT(Holder(k))]
           \o <<CE1("e1"), CE1("e2"), GT("e1"), CG1("g1", ""), CG1("g2", ""), AM("e1", "g1")>>
           \o <<[op |-> "EntityKVAdd", id |-> "e2", key |-> "k", vals |-> <<<<"v", 0>>>>, tok |-> "T0"],
                [op |-> "GroupKVAdd", g |-> "g1", key |-> "k", vals |-> <<<<"v", 0>>>>, tok |-> "T0"]>>
PreCapsRO == PreCaps \o <<[op |-> "Restart", ro |-> TRUE]>>
PreRich == <<CE1("e1"), CE1("e2"), CG1("g1", ""), CG1("g2", "g1"), AM("e1", "g1"), AM("e2", "g2"), RU("g1", "g2", "INCLUDE"),
             CapE("e1", "LOCK_ENTITY"), CapG("g2", "CREATE_ENTITY"), GT("e1"), GT("e2"),
             [op |-> "EntityKVAdd", id |-> "e1", key |-> "k", vals |-> <<<<"v", 0>>>>, tok |-> "T0"],
             [op |-> "EntityUM", id |-> "e1", act |-> "UPSERT", key |-> "k{0}", val |-> "v", tok |-> "T0"],
             [op |-> "EntityKeys", id |-> "e1", act |-> "ADD", typ |-> "ssh", key |-> "A", tok |-> "T0"]>>

Vals2 == {<<<<"v", 0>>>>, <<<<"w", 1>>, <<"v", 0>>>>}
Vals1 == {<<<<"v", 0>>>>}
NoVals == {<<>>}
AutoNums == {-1, 2, 4}
HolderToks == {"t_" \o Holder(k) : k \in 1..12}
ToksC05 == HolderToks \cup {"", "!garbage", "T0", "t_e1"}

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
Start == RunAll(S0, Pre, 1)

(* what can be told from requests and answers alone *)
Ghost0 == [sec |-> [x \in {"root"} |-> "rootpw"], lk |-> {}]
GhostStep(g, c, res) ==
  IF res # "OK" THEN g
  ELSE CASE c.op = "EntityCreate" -> [sec |-> With(g.sec, c.id, c.sec), lk |-> g.lk \ {c.id}]
         [] c.op = "EntityDestroy" -> [sec |-> Without(g.sec, c.id), lk |-> g.lk \ {c.id}]
         [] c.op = "AuthChangeSecret" -> [g EXCEPT !.sec = With(g.sec, c.id, c.sec)]
         [] c.op = "EntityLock" -> [g EXCEPT !.lk = @ \cup {c.id}]
         [] c.op = "EntityUnlock" -> [g EXCEPT !.lk = @ \ {c.id}]
         [] c.op = "Restart" /\ "bid" \in DOMAIN c -> [sec |-> With(g.sec, c.bid, c.bsec), lk |-> g.lk \ {c.bid}]
         [] OTHER -> g
RECURSIVE GhostAll(_, _, _, _)
GhostAll(g, s, cs, i) == IF i > Len(cs) THEN g
   ELSE GhostAll(GhostStep(g, cs[i], "OK"), s, cs, i + 1)

J(x) == ToJson(x)

Init == /\ S = Start
        /\ last = [c |-> [op |-> "Init"], res |-> "OK", out |-> {}, flip |-> FALSE]
        /\ ghost = GhostAll(Ghost0, S0, Pre, 1)
        /\ Export => PrintT("PRELUDE " \o J([pre |-> Pre, s |-> TLCFP(S)]))

Do(c) ==
  LET r == Run(S, c, IF (IsMod(c) /\ AutoNum(c)) \/ c.op = "Restart" THEN NextNum(c) ELSE 0) IN
  /\ S' = r.S
  /\ last' = [c |-> c, res |-> r.res, out |-> r.out, flip |-> ~last.flip]
  /\ ghost' = GhostStep(ghost, c, r.res)
  /\ Export => PrintT("EDGE " \o J([s |-> TLCFP(S), c |-> c, t |-> TLCFP(S')]))

Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars

Bounded == TLCGet("level") <= MaxLevel /\ Cardinality(DOMAIN S.e) <= MaxE /\ Cardinality(DOMAIN S.g) <= MaxG
           /\ \A n \in Numbers(S.e) \cup Numbers(S.g) : n <= MaxN

(***************************************************************************)
(* The properties, formulated on their own                                 *)
(***************************************************************************)
Cc == last'.c
Res == last'.res
Stored == <<S.e, S.g>>
Isop(s) == Cc.op \in s

(* C01, C02: accounts as seen from outside *)
A_C01 == Isop({"AuthEntity", "AuthGetToken"}) =>
           (Res = "OK" <=> Cc.id \in DOMAIN ghost.sec /\ Cc.id \notin ghost.lk /\ ghost.sec[Cc.id] = Cc.sec)
A_C01b == Isop({"AuthEntity", "AuthGetToken"}) => Stored' = Stored
A_C02 == /\ Isop({"AuthEntity", "AuthGetToken"}) /\ Cc.id \in ghost.lk => Res # "OK"
         /\ Isop({"AuthChangeSecret"}) /\ Cred(S, Cc) = "ok" /\ Claims(S, Cc).id = Cc.id /\ Cc.id \in ghost.lk => Res # "OK"
I_Ghost == /\ DOMAIN ghost.sec = DOMAIN S.e
           /\ \A x \in DOMAIN S.e : S.e[x].sec = ghost.sec[x] /\ (S.e[x].lk <=> x \in ghost.lk)
A_C03 == Isop({"AuthChangeSecret"}) =>
           /\ Res = "OK" <=> /\ ~S.ro
                             /\ Cc.tok \in DOMAIN S.toks
                             /\ Cc.id \in DOMAIN ghost.sec
                             /\ IF S.toks[Cc.tok].id = Cc.id THEN Cc.id \notin ghost.lk /\ ghost.sec[Cc.id] = Cc.old
                                ELSE S.toks[Cc.tok].caps \cap {"CHANGE_ENTITY_SECRET", ROOT} # {}
           /\ \A x \in DOMAIN S.e : x # Cc.id => S'.e[x] = S.e[x]

(* C05, C06, C10: nothing changes without authority *)
OwnExc(c) == \/ c.op \in {"AuthChangeSecret", "EntityKeys"} /\ Cred(S, c) = "ok" /\ Claims(S, c).id = c.id
             \/ c.op \in Delegable /\ Cred(S, c) = "ok" /\
                  \A g \in (IF "gs" \in DOMAIN c THEN {c.gs[k] : k \in DOMAIN c.gs} ELSE {c.g}) :
                     g \in DOMAIN S.g /\ S.g[g].mb # "" /\ Claims(S, c).id \in Members(S, S.g[g].mb)
(* requests for an action that the request does not have *)
Odd(c) == "act" \in DOMAIN c /\ c.op # "GroupUpdateRules" /\
            c.act \notin (IF c.op = "SystemCapabilities" THEN {"ADD", "DROP"}
                         ELSE IF c.op = "EntityKeys" THEN {"READ", "ADD", "DROP"} ELSE {"READ", "UPSERT", "CLEAREXACT", "CLEARFUZZY"})
A_Odd == Odd(Cc) => Res # "OK" /\ Stored' = Stored
A_C05 == /\ A_Odd
         /\ Cc.op # "Restart" /\ Stored' # Stored =>
              /\ ~S.ro /\ Cc.tok \in DOMAIN S.toks
              /\ \/ S.toks[Cc.tok].caps \cap {ROOT, Need(Cc.op)} # {}
                 \/ OwnExc(Cc)
                 \/ Cc.op = "GroupAddMember" \/ Cc.op = "GroupDelMember"   \* see A_C06m
         /\ IsMod(Cc) /\ ~Odd(Cc) /\ ~S.ro /\ Cc.tok \in DOMAIN S.toks /\ S.toks[Cc.tok].caps \cap {ROOT, Need(Cc.op)} # {}
              => Res \notin {"Unimplemented", "PermissionDenied", "InvalidArgument"}
                 /\ (Res = "Unauthenticated" => Cc.op = "AuthChangeSecret" /\ S.toks[Cc.tok].id = Cc.id)
(* membership edits without the capability reach only managed groups *)
A_C06m == Isop({"GroupAddMember", "GroupDelMember"}) /\ Cred(S, Cc) = "ok" /\ ~Holds(S, Cc, "MODIFY_GROUP_MEMBERS")
            /\ Cc.id \in DOMAIN S.e =>
            \A g \in (S.e[Cc.id].gr \cup S'.e[Cc.id].gr) \ (S.e[Cc.id].gr \cap S'.e[Cc.id].gr) :
               g \in DOMAIN S.g /\ S.g[g].mb \in DOMAIN S.g
A_C06s == Isop({"GroupAddMember", "GroupDelMember"}) /\ Len(Cc.gs) = 1 /\ ~S.ro /\ Cred(S, Cc) = "ok" /\ ~Holds(S, Cc, "MODIFY_GROUP_MEMBERS") =>
           LET g == Cc.gs[1] IN
           IF g \in DOMAIN S.g /\ S.g[g].mb # "" /\ Claims(S, Cc).id \in Members(S, S.g[g].mb)
           THEN Res # "PermissionDenied" ELSE Res = "PermissionDenied" /\ Stored' = Stored
A_C06 == Isop(Delegable \ {"GroupAddMember", "GroupDelMember"}) /\ IsMod(Cc) /\ ~Odd(Cc) /\ ~S.ro /\ Cred(S, Cc) = "ok" /\ ~Holds(S, Cc, Need(Cc.op)) =>
           IF Cc.g \in DOMAIN S.g /\ S.g[Cc.g].mb # "" /\ Claims(S, Cc).id \in Members(S, S.g[Cc.g].mb)
           THEN Res # "PermissionDenied" ELSE Res = "PermissionDenied" /\ Stored' = Stored
A_C10 == S.ro /\ Cc.op # "Restart" =>
           /\ Stored' = Stored
           /\ IsMod(Cc) /\ ~Bad(Cc) => Res = "Unimplemented"
           /\ ~IsMod(Cc) => Query(S, Cc) = Query([S EXCEPT !.ro = FALSE], Cc)

(* C07 *)
ProtE(r) == <<r.num, r.sec, r.lk, r.caps, r.gr, r.keys, r.um, r.kv>>
ProtG(r) == <<r.num, r.caps, r.rules, r.um, r.kv>>
A_C07 == /\ Isop({"EntityUpdate"}) =>
              \A x \in DOMAIN S.e : ProtE(S'.e[x]) = ProtE(S.e[x]) /\
                \A k \in MetaK : LET v(s) == {p[2] : p \in {p \in s.e[x].meta : p[1] = k}} IN
                  IF Res = "OK" /\ x = Cc.id /\ \E j \in DOMAIN Cc.meta : Cc.meta[j][1] = k
                  THEN v(S') = {Cc.meta[1][2]} \ {""} ELSE v(S') = v(S)
         /\ Isop({"GroupUpdate"}) =>
              \A y \in DOMAIN S.g : ProtG(S'.g[y]) = ProtG(S.g[y])
                /\ S'.g[y].dn = (IF Res = "OK" /\ y = Cc.g /\ "dn" \in DOMAIN Cc THEN Cc.dn ELSE S.g[y].dn)
                /\ S'.g[y].mb = (IF Res = "OK" /\ y = Cc.g /\ "mb" \in DOMAIN Cc THEN Cc.mb ELSE S.g[y].mb)
         /\ ~Isop({"EntityUpdate", "EntityCreate", "EntityDestroy", "Restart"}) => \A x \in DOMAIN S.e : S'.e[x].meta = S.e[x].meta

(* C08, C09: tokens *)
A_C09 == /\ Isop({"AuthGetToken"}) /\ Res = "OK" =>
              S'.toks[Cc.as] = [id |-> Cc.id, caps |-> S.e[Cc.id].caps \cup UNION {S.g[g].caps : g \in {g \in DOMAIN S.g : Cc.id \in Members(S, g)}}]
         /\ \A t \in DOMAIN S.toks : t \in DOMAIN S'.toks /\
              (~(Isop({"AuthGetToken"}) /\ Cc.as = t) => S'.toks[t] = S.toks[t])

(* C11: the membership equations have exactly one solution, and it is used *)
Solves(s, x, M) == \A g \in DOMAIN s.g :
   g \in M <=> /\ g \in s.e[x].gr \/ \E h \in M : <<"INCLUDE", h>> \in s.g[g].rules
               /\ ~\E h \in M : <<"EXCLUDE", h>> \in s.g[g].rules
I_C11 == \A x \in DOMAIN S.e : {M \in SUBSET DOMAIN S.g : Solves(S, x, M)} = {Groups(S, x)}
I_C11b == \A x \in DOMAIN S.e, g \in DOMAIN S.g : (g \in Groups(S, x)) <=> (x \in Members(S, g))

(* C12: there is an order of the groups along which all rules point *)
I_C12 == \E f \in [DOMAIN S.g -> 1..Cardinality(DOMAIN S.g)] :
           \A g \in DOMAIN S.g : \A r \in S.g[g].rules : r[2] \in DOMAIN S.g => f[r[2]] < f[g]
I_C12b == \A g \in DOMAIN S.g : g \notin Reach(S, g)
A_C12 == Isop({"GroupUpdateRules"}) /\ Cc.act # "REMOVE_RULE" /\ Cc.g \in DOMAIN S.g /\ Cc.tgt \in DOMAIN S.g
           /\ Cc.g # Cc.tgt /\ Cc.g \notin Reach(S, Cc.tgt)
           /\ Cc.tgt \notin {r[2] : r \in S.g[Cc.g].rules} => Res = "OK"
(* C13 *)
I_C13 == \A g \in DOMAIN S.g : \A r1, r2 \in S.g[g].rules : r1[2] = r2[2] => r1 = r2
A_C13 == /\ Isop({"GroupUpdateRules"}) =>
             \A y \in DOMAIN S.g : S'.g[y].rules =
               IF y # Cc.g \/ Res # "OK" THEN S.g[y].rules
               ELSE IF Cc.act = "REMOVE_RULE" THEN S.g[y].rules \ {<<"INCLUDE", Cc.tgt>>, <<"EXCLUDE", Cc.tgt>>}
               ELSE S.g[y].rules \cup {<<Cc.act, Cc.tgt>>}
         /\ Isop({"GroupUpdateRules"}) /\ Cc.g \notin DOMAIN S.g => Res # "OK"
         /\ ~Isop({"GroupUpdateRules", "GroupDestroy", "GroupCreate"}) => \A y \in DOMAIN S.g : S'.g[y].rules = S.g[y].rules
(* C15 *)
A_C15 == /\ Isop({"GroupAddMember", "GroupDelMember"}) /\ Res = "OK" /\ Len(Cc.gs) > 0 =>
             LET gs == {Cc.gs[k] : k \in DOMAIN Cc.gs} IN
             S'.e = [S.e EXCEPT ![Cc.id].gr = IF Cc.op = "GroupAddMember" THEN @ \cup gs ELSE @ \ gs]
         /\ ~Isop({"GroupAddMember", "GroupDelMember"}) => \A x \in DOMAIN S.e \cap DOMAIN S'.e : S'.e[x].gr = S.e[x].gr
(* C16, C17 *)
A_C16 == /\ Isop({"EntityCreate"}) /\ Res = "OK" => Cc.id \notin DOMAIN S.e /\ S'.e[Cc.id].sec = Cc.sec
              /\ S'.e[Cc.id].caps \cup S'.e[Cc.id].gr \cup S'.e[Cc.id].keys \cup S'.e[Cc.id].um \cup S'.e[Cc.id].kv \cup S'.e[Cc.id].meta = {}
         /\ DOMAIN S'.e = IF Res # "OK" THEN DOMAIN S.e
              ELSE IF Isop({"EntityCreate"}) THEN DOMAIN S.e \cup {Cc.id}
              ELSE IF Isop({"EntityDestroy"}) THEN DOMAIN S.e \ {Cc.id}
              ELSE IF Isop({"Restart"}) /\ "bid" \in DOMAIN Cc THEN DOMAIN S.e \cup {Cc.bid} ELSE DOMAIN S.e
         /\ Isop({"EntityUpdate", "EntityUM", "EntityLock", "EntityUnlock", "EntityInfo", "EntityGroups", "EntityDestroy"})
              /\ Cc.id \notin DOMAIN S.e => Res # "OK"
A_C17 == /\ Isop({"GroupCreate"}) /\ Res = "OK" => Cc.g \notin DOMAIN S.g /\ S'.g[Cc.g].dn = Cc.dn /\ S'.g[Cc.g].mb = Cc.mb
              /\ Cc.mb \in {"", Cc.g} \cup DOMAIN S.g
              /\ S'.g[Cc.g].caps \cup S'.g[Cc.g].rules \cup S'.g[Cc.g].um \cup S'.g[Cc.g].kv = {}
         /\ DOMAIN S'.g = IF Res # "OK" THEN DOMAIN S.g
              ELSE IF Isop({"GroupCreate"}) THEN DOMAIN S.g \cup {Cc.g}
              ELSE IF Isop({"GroupDestroy"}) THEN DOMAIN S.g \ {Cc.g} ELSE DOMAIN S.g
(* C18 *)
A_C18 == /\ Isop({"EntityCreate"}) /\ Res = "OK" =>
              IF Cc.num = -1 THEN S'.e[Cc.id].num > 0 /\ \A x \in DOMAIN S.e : S.e[x].num # S'.e[Cc.id].num
              ELSE S'.e[Cc.id].num = Cc.num
         /\ Isop({"GroupCreate"}) /\ Res = "OK" =>
              IF Cc.num = -1 THEN S'.g[Cc.g].num > 0 /\ \A x \in DOMAIN S.g : S.g[x].num # S'.g[Cc.g].num
              ELSE S'.g[Cc.g].num = Cc.num
         /\ \A x \in DOMAIN S.e \cap DOMAIN S'.e : S'.e[x].num = S.e[x].num
         /\ \A x \in DOMAIN S.g \cap DOMAIN S'.g : S'.g[x].num = S.g[x].num
(* C19, C20: partial functions kept as such *)
Fun(m) == \A p, q \in m : p[1] = q[1] => p = q
I_C19 == (\A x \in DOMAIN S.e : Fun(S.e[x].kv)) /\ (\A y \in DOMAIN S.g : Fun(S.g[y].kv))
AsFn(m) == [k \in {p[1] : p \in m} |-> (CHOOSE p \in m : p[1] = k)[2]]
KVNext(old, c, ok) ==
  LET f == AsFn(old) IN
  IF ~ok THEN f
  ELSE CASE c.op \in {"EntityKVAdd", "GroupKVAdd", "EntityKVReplace", "GroupKVReplace"} -> (c.key :> c.vals) @@ f
         [] c.op \in {"EntityKVDel", "GroupKVDel"} -> [k \in DOMAIN f \ {c.key} |-> f[k]]
         [] OTHER -> f
A_C19 == /\ \A x \in DOMAIN S.e \cap DOMAIN S'.e :
              AsFn(S'.e[x].kv) = KVNext(S.e[x].kv, Cc, Res = "OK" /\ Isop({"EntityKVAdd", "EntityKVReplace", "EntityKVDel"}) /\ Cc.id = x)
         /\ \A y \in DOMAIN S.g \cap DOMAIN S'.g :
              AsFn(S'.g[y].kv) = KVNext(S.g[y].kv, Cc, Res = "OK" /\ Isop({"GroupKVAdd", "GroupKVReplace", "GroupKVDel"}) /\ Cc.g = y)
         /\ Isop({"EntityKVAdd"}) /\ Cc.id \in DOMAIN S.e /\ Cred(S, Cc) = "ok" => (Res = "OK" <=> Cc.key \notin Keys(S.e[Cc.id].kv))
         /\ Isop({"EntityKVReplace", "EntityKVDel"}) /\ Cc.id \in DOMAIN S.e /\ Cred(S, Cc) = "ok" => (Res = "OK" <=> Cc.key \in Keys(S.e[Cc.id].kv))
         /\ Isop({"GroupKVAdd"}) /\ Cc.g \in DOMAIN S.g /\ Cred(S, Cc) = "ok" => (Res = "OK" <=> Cc.key \notin Keys(S.g[Cc.g].kv))
         /\ Isop({"GroupKVReplace", "GroupKVDel"}) /\ Cc.g \in DOMAIN S.g /\ Cred(S, Cc) = "ok" => (Res = "OK" <=> Cc.key \in Keys(S.g[Cc.g].kv))
         /\ Isop({"EntityKVGet"}) /\ Res = "OK" => \A p \in S.e[Cc.id].kv : (p \in last'.out <=> Cc.key \in {"*", p[1]})
         /\ Isop({"GroupKVGet"}) /\ Res = "OK" => \A p \in S.g[Cc.g].kv : (p \in last'.out <=> Cc.key \in {"*", p[1]})
I_C20 == (\A x \in DOMAIN S.e : Fun(S.e[x].um)) /\ (\A y \in DOMAIN S.g : Fun(S.g[y].um))
UMNext(old, c, ok) ==
  LET f == AsFn(old) IN
  IF ~ok THEN f
  ELSE CASE c.act = "UPSERT" -> (c.key :> c.val) @@ f
         [] c.act = "CLEAREXACT" -> [k \in DOMAIN f \ {c.key} |-> f[k]]
         [] c.act = "CLEARFUZZY" -> [k \in {k \in DOMAIN f : MBase(k) # MBase(c.key)} |-> f[k]]
         [] OTHER -> f
A_C20 == /\ Isop({"EntityUM", "GroupUM"}) /\ Cc.act # "READ" /\ MColon(Cc.key) => Res # "OK"
         /\ \A x \in DOMAIN S.e \cap DOMAIN S'.e :
              AsFn(S'.e[x].um) = UMNext(S.e[x].um, Cc, Res = "OK" /\ Isop({"EntityUM"}) /\ Cc.id = x)
         /\ \A y \in DOMAIN S.g \cap DOMAIN S'.g :
              AsFn(S'.g[y].um) = UMNext(S.g[y].um, Cc, Res = "OK" /\ Isop({"GroupUM"}) /\ Cc.g = y)
         /\ Isop({"EntityUM"}) /\ Cc.act = "READ" /\ Res = "OK" =>
              \A p \in S.e[Cc.id].um : (p \in last'.out <=> Cc.key = "*" \/ MBase(p[1]) = MBase(Cc.key))
(* C21 *)
A_C21 == /\ Isop({"EntityKeys"}) /\ Cc.act # "READ" /\ MColon(Cc.typ) => Res # "OK"
         /\ \A x \in DOMAIN S.e \cap DOMAIN S'.e : ~(Isop({"EntityKeys"}) /\ Res = "OK" /\ Cc.id = x) => S'.e[x].keys = S.e[x].keys
         /\ Isop({"EntityKeys"}) /\ Res = "OK" =>
              LET old == S.e[Cc.id].keys
                  new == S'.e[Cc.id].keys
                  t == MUpper(Cc.typ)
              IN CASE Cc.act = "ADD" -> new = old \cup {<<t, Cc.key>>}
                   [] Cc.act = "DROP" -> /\ new \subseteq old
                        /\ \A p \in old : p \notin new <=> ((Cc.typ = "" \/ p[1] = t) /\ (Cc.key = "" \/ p[2] = Cc.key))
                   [] OTHER -> new = old /\ last'.out = old
(* C22 *)
A_C22 == /\ ~(Isop({"SystemCapabilities"}) \/ (Isop({"Restart"}) /\ "bid" \in DOMAIN Cc)) =>
              /\ \A x \in DOMAIN S.e \cap DOMAIN S'.e : S'.e[x].caps = S.e[x].caps
              /\ \A x \in DOMAIN S.g \cap DOMAIN S'.g : S'.g[x].caps = S.g[x].caps
         /\ Isop({"SystemCapabilities"}) /\ Res = "OK" =>
              /\ Cc.act \in {"ADD", "DROP"}
              /\ Cred(S, Cc) = "ok" /\ ROOT \in Claims(S, Cc).caps
              /\ LET f(o) == IF Cc.act = "ADD" THEN o \cup {Cc.cap} ELSE o \ {Cc.cap} IN
                 Stored' = IF Cc.direct THEN <<[S.e EXCEPT ![Cc.tgt].caps = f(@)], S.g>> ELSE <<S.e, [S.g EXCEPT ![Cc.tgt].caps = f(@)]>>
(* C23, C36 *)
A_C23 == Res # "OK" /\ ~("gs" \in DOMAIN Cc /\ Len(Cc.gs) > 1) => Stored' = Stored
Names(c) == (IF "id" \in DOMAIN c THEN {c.id} ELSE {}) \cup (IF "tgt" \in DOMAIN c THEN {c.tgt} ELSE {})
            \cup (IF "bid" \in DOMAIN c THEN {c.bid} ELSE {})
A_C36 == /\ \A x \in (DOMAIN S.e \cup DOMAIN S'.e) \ Names(Cc) : x \in DOMAIN S.e /\ x \in DOMAIN S'.e /\ S'.e[x] = S.e[x]
         /\ \A y \in (DOMAIN S.g \cup DOMAIN S'.g) \ ((IF "g" \in DOMAIN Cc THEN {Cc.g} ELSE {}) \cup (IF "tgt" \in DOMAIN Cc THEN {Cc.tgt} ELSE {})) :
              y \in DOMAIN S.g /\ y \in DOMAIN S'.g /\ S'.g[y] = S.g[y]
         /\ ~IsMod(Cc) /\ ~("bid" \in DOMAIN Cc) => Stored' = Stored
(* C28 *)
A_C28 == /\ Isop({"Restart"}) /\ "bid" \notin DOMAIN Cc => Stored' = Stored
         /\ Isop({"Restart"}) /\ "bid" \in DOMAIN Cc =>
              /\ S'.g = S.g
              /\ LET r == S'.e[Cc.bid] IN r.sec = Cc.bsec /\ ~r.lk /\ ROOT \in r.caps
              /\ Cc.bid \in DOMAIN S.e => LET r == S'.e[Cc.bid] IN
                   S.e[Cc.bid] = [r EXCEPT !.sec = S.e[Cc.bid].sec, !.lk = S.e[Cc.bid].lk, !.caps = S.e[Cc.bid].caps]
                   /\ r.caps = S.e[Cc.bid].caps \cup {ROOT}

P_Ghost == [][I_Ghost']_vars
P_C01 == [][A_C01 /\ A_C01b]_vars
P_C02 == [][A_C02]_vars
P_C03 == [][A_C03]_vars
P_C05 == [][A_C05]_vars
P_C06 == [][A_C06 /\ A_C06m /\ A_C06s]_vars
P_C07 == [][A_C07]_vars
P_C09 == [][A_C09]_vars
P_C10 == [][A_C10]_vars
P_C12 == [][A_C12]_vars
P_C13 == [][A_C13]_vars
P_C15 == [][A_C15]_vars
P_C16 == [][A_C16]_vars
P_C17 == [][A_C17]_vars
P_C18 == [][A_C18]_vars
P_C19 == [][A_C19]_vars
P_C20 == [][A_C20]_vars
P_C21 == [][A_C21]_vars
P_C22 == [][A_C22]_vars
P_C23 == [][A_C23]_vars
P_C28 == [][A_C28]_vars
P_C36 == [][A_C36]_vars
=============================================================================
