-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool.  A command is the call of the client library that *)
(* it is for (see Client), made as the entity who with the secret sec.      *)
(*                                                                         *)
(* tok     the cached token of an entity: its label and whether it is valid *)
(*                                                                         *)
(* A token that is issued is labelled new and valid if life is "long"; the *)
(* server answers the request for it with tcode.                            *)
(***************************************************************************)
EXTENDS Client

IZ(split) == [split |-> split, tok |-> [x \in {} |-> [l |-> "", ok |-> FALSE]]]

Local == {"Bad", "GetToken", "DestroyToken", "InspectToken"}
NeedsToken(c) == c.op \in {"InspectToken", "AuthValidateToken"} \/ (c.op \notin Local /\ ~IsRead(c))
Cached(s, c) == c.who \in DOMAIN s.tok /\ s.tok[c.who].ok
Asks(s, c) == c.op = "GetToken" \/ (NeedsToken(c) /\ ~Cached(s, c))
Token(s, c) == IF Asks(s, c) THEN [l |-> c.new, ok |-> c.life = "long"] ELSE s.tok[c.who]

(* the call of the library that a command makes *)
Call(s, c) ==
  CASE c.op = "AuthEntity" -> [c EXCEPT !.id = c.who]
    [] c.op = "AuthValidateToken" -> [c EXCEPT !.val = Token(s, c).l]
    [] c.op = "AuthChangeSecret" ->
         LET t == IF c.id = "" THEN c.who ELSE c.id IN [c EXCEPT !.id = t, !.old = IF t = c.who THEN c.sec ELSE "", !.sec = c.nsec]
    [] c.op = "EntityCreate" -> [c EXCEPT !.sec = c.nsec]
    [] c.op \in {"EntityUM", "GroupUM"} -> [c EXCEPT !.val = IF c.can = "UPSERT" THEN c.val ELSE ""]
    [] c.op = "EntityKeys" ->
         [c EXCEPT !.id = IF c.id = "" THEN c.who ELSE c.id,
                   !.key = CASE c.can = "ADD" -> c.key [] c.can = "DROP" -> "" [] OTHER -> IF c.key = "" THEN "SSH" ELSE c.base,
                   !.val = IF c.can = "READ" THEN "" ELSE c.val,
                   !.base = IF c.key = "" THEN "SSH" ELSE c.base]
    [] OTHER -> c

Refused(s, c) == Asks(s, c) /\ c.tcode /= "OK"
Fetch(c) == [rpc |-> "AuthGetToken", fields |-> {<<"Entity.ID", c.who>>, <<"Secret", c.sec>>}, auth |-> {}]
CliRequests(s, c) ==
  (IF Asks(s, c) THEN <<Fetch(c)>> ELSE <<>>)
  \o (IF c.op \in Local \/ Refused(s, c) THEN <<>>
      ELSE LET rs == Requests(Call(s, c))
               a == IF NeedsToken(c) /\ c.op /= "AuthValidateToken" THEN {Token(s, c).l} ELSE {}
           IN [j \in 1..Len(rs) |-> [rpc |-> rs[j].rpc, fields |-> rs[j].fields, auth |-> a]])
Worked(s, c) ==
  CASE c.op = "Bad" -> FALSE
    [] c.op = "DestroyToken" -> TRUE
    [] Refused(s, c) -> FALSE
    [] c.op = "GetToken" -> TRUE
    [] c.op = "InspectToken" -> Token(s, c).ok
    [] OTHER -> c.code = "OK"
NoTok(s, w) == [s EXCEPT !.tok = [x \in DOMAIN @ \ {w} |-> @[x]]]
CliRun(s, c) ==
  {[S |-> CASE c.op = "DestroyToken" -> NoTok(s, c.who)
            [] Asks(s, c) /\ ~Refused(s, c) -> [s EXCEPT !.tok = (c.who :> Token(s, c)) @@ @]
            [] OTHER -> s,
    res |-> IF Worked(s, c) THEN "OK" ELSE "FAILED",
    asks |-> Asks(s, c)]}

(* ---- what is shown ---- *)
AllE == <<"id", "number", "primarygroup", "gecos", "legalname", "displayname", "homedir", "shell", "graphicalshell", "badgenumber", "capabilities">>
AllG == <<"name", "displayname", "number", "managedby", "rules", "capabilities">>
MetaOf == [primarygroup |-> "PrimaryGroup", gecos |-> "GECOS", legalname |-> "LegalName", displayname |-> "DisplayName", homedir |-> "Home",
           shell |-> "Shell", graphicalshell |-> "GraphicalShell", badgenumber |-> "BadgeNumber"]
Meta(e, f) == LET J == {j \in 1..Len(e.meta) : e.meta[j][1] = MetaOf[f]} IN
              IF J = {} THEN <<>> ELSE LET v == e.meta[CHOOSE j \in J : TRUE][2] IN IF v = "" THEN <<>> ELSE <<v>>
ShowE(e, f) == CASE f = "id" -> <<e.id>> [] f = "number" -> <<ToString(e.num)>> [] f = "capabilities" -> e.caps
                 [] f \in DOMAIN MetaOf -> Meta(e, f) [] OTHER -> <<>>
ShowG(g, f) == CASE f = "name" -> <<g.id>> [] f = "number" -> <<ToString(g.num)>> [] f = "capabilities" -> g.caps [] f = "rules" -> g.rules
                 [] f = "displayname" -> <<g.dn>> [] f = "managedby" -> IF g.mb = "" THEN <<>> ELSE <<g.mb>> [] OTHER -> <<>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
(* low are the field names asked for, in lower case *)
Shown(c) ==
  IF c.op \in {"EntityInfo", "EntitySearch", "GroupMembers"}
  THEN LET F == IF c.low = <<>> THEN AllE ELSE c.low IN Cat([j \in 1..Len(c.ents) |-> Cat([k \in 1..Len(F) |-> ShowE(c.ents[j], F[k])])])
  ELSE LET F == IF c.low = <<>> THEN AllG ELSE c.low IN
       Cat([j \in 1..Len(c.grps) |-> Cat([k \in 1..Len(F) |-> ShowG(c.grps[j], F[k])])]) \o (IF c.op = "GroupInfo" THEN Subs(c) ELSE <<>>)
Lists == {"EntityInfo", "EntitySearch", "GroupMembers", "EntityGroups", "GroupInfo", "GroupSearch"}
=============================================================================
