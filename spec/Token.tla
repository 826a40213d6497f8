------------------------------- MODULE Token --------------------------------
(***************************************************************************)
(* Tokens, the keys behind them and the time they are good for.            *)
(*                                                                         *)
(* disk   the key files: pub and priv, each naming a key, or what is wrong *)
(*        with the file                                                    *)
(* live   the keys the running server has loaded; pub = "down" when the    *)
(*        server did not start                                             *)
(* gens   how many key pairs were generated                                *)
(* toks   tokens issued so far, by name                                    *)
(*                                                                         *)
(* A token is described by the key that signed it, the way it is signed    *)
(* (alg = "" for the server's own way), the window it is good for and its  *)
(* claims.  What is presented may have been altered in some part.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keys == {"K1", "K2", "K3"}
GenKey(n) == "G" \o ToString(n)
IsKey(x, s) == x \in Keys \/ \E n \in 1..s.gens : x = GenKey(n)
TZ == [disk |-> [pub |-> "K1", priv |-> "K1"], live |-> [pub |-> "K1", priv |-> "K1"], gens |-> 0, toks |-> [x \in {} |-> {}]]

Now(w) == w \in {"now", "now2", "now3", "short", "long"}
Up(s) == s.live.pub # "down"
(* C08: the tokens that are good *)
Genuine(s, t, alter) == Up(s) /\ alter = "" /\ t.alg = "" /\ t.key = s.live.pub /\ Now(t.win)

Delegated == {"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"}
(* what the holder of genuine claims may do in the store of the driver *)
Entitled(t, rpc) == \/ "GLOBAL_ROOT" \in t.caps /\ rpc # "SelfSecret"
                    \/ rpc = "AuthValidateToken"
                    \/ t.eid = "m1" /\ (rpc \in Delegated \/ rpc = "SelfSecret")
\* changing the secret of m1 needs the old secret or the capability
Entitled2(t, rpc) == Entitled(t, rpc) \/ (rpc = "SelfSecret" /\ "GLOBAL_ROOT" \in t.caps)

O(s, res) == [S |-> s, res |-> res, chg |-> FALSE, out |-> [id |-> "", caps |-> {}, life |-> 0]]

TokRun(s, c) ==
  CASE c.op = "Install" -> {O([s EXCEPT !.disk = [pub |-> c.pub, priv |-> c.priv]], "OK")}
    [] c.op = "Restart" ->
         IF IsKey(s.disk.pub, s)
         THEN {O([s EXCEPT !.live = [pub |-> s.disk.pub, priv |-> IF IsKey(s.disk.priv, s) THEN s.disk.priv ELSE "none"]], "OK")}
         ELSE IF s.disk.pub = "none" /\ c.gen
         THEN LET k == [pub |-> GenKey(s.gens + 1), priv |-> GenKey(s.gens + 1)] IN
              {O([s EXCEPT !.gens = @ + 1, !.disk = k, !.live = k], "OK")}
         ELSE {O([s EXCEPT !.live = [pub |-> "down", priv |-> "none"]], "FAILED")}
    [] c.op = "Wait" ->
         {O([s EXCEPT !.toks = [x \in DOMAIN @ |-> IF @[x].win = "short" THEN [@[x] EXCEPT !.win = "past"] ELSE @[x]]], "OK")}
    [] c.op = "Get" ->
         IF ~Up(s) THEN {O(s, "DOWN")}
         ELSE IF c.sec # "right" \/ c.id \notin {"root0", "m1"} THEN {O(s, "Unauthenticated")}
         ELSE IF s.live.priv = "none" THEN {O(s, "Internal")}
         ELSE LET caps == IF c.id = "root0" THEN {"GLOBAL_ROOT"} ELSE {}
                  t == [key |-> s.live.priv, alg |-> "", win |-> c.life, eid |-> c.id, caps |-> caps]
              IN {[O([s EXCEPT !.toks = (c.as :> t) @@ @], "OK")
                    EXCEPT !.out = [id |-> c.id, caps |-> caps, life |-> IF c.life = "short" THEN 2 ELSE 3600]]}
    [] c.op = "Use" ->
         IF ~Up(s) THEN {O(s, "DOWN")}
         ELSE LET none == c.src # "" /\ c.src \notin DOMAIN s.toks
                  t == IF c.src = "" THEN c.craft ELSE s.toks[c.src]
                  \* the token is a field of this request, which can not be repeated
                  field == c.rpc = "AuthValidateToken"
              IN IF c.how \in (IF field THEN {"none", "empty"} ELSE {"none", "empty", "dup", "mix", "xim"}) \/ none
                 THEN {O(s, "REFUSED")}
                 ELSE IF ~Genuine(s, t, c.alter) THEN {O(s, "REFUSED")}
                 ELSE IF Entitled2(t, c.rpc) THEN {[O(s, "ACCEPTED") EXCEPT !.chg = x] : x \in BOOLEAN}
                 ELSE {O(s, "PermissionDenied")}
=============================================================================
