------------------------------ MODULE MCToken -------------------------------
(* Small sets of keys and tokens, exhaustively. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Disks, Rpcs, Crafts, Alters, Names, Ids, Lives, Waits, MaxGen, Export
VARIABLES S, last
INSTANCE Token

P(a, b) == [pub |-> a, priv |-> b]
DAll == {P("K1", "K1"), P("K2", "K2"), P("K1", "none"), P("none", "none"), P("badmode", "K1"), P("garbage", "garbage")}
DSome == {P("K1", "K1"), P("K2", "K2"), P("none", "none")}
DNone == {}
CR(k, a, w, e, cs) == [key |-> k, alg |-> a, win |-> w, eid |-> e, caps |-> cs]
R == {"GLOBAL_ROOT"}
CAll == {CR(k, a, w, "root0", R) : k \in {"K1", "K2"}, a \in {"", "sub"}, w \in {"now", "past", "future"}}
        \cup {CR("K1", "", "now", "m1", {}), CR("K1", "", "now", "root0", {}), CR("K1", "", "past", "m1", {})}
CSome == {CR("K1", "", w, "root0", R) : w \in {"now", "past", "future"}}
Hows == {"one", "none", "empty", "dup", "mix", "xim"}

MCalls(s) ==
  {[op |-> "Install", pub |-> d.pub, priv |-> d.priv] : d \in Disks}
  \cup [op : {"Restart"}, gen : IF s.gens < MaxGen THEN BOOLEAN ELSE {FALSE}]
  \cup (IF Waits THEN {[op |-> "Wait"]} ELSE {})
  \cup [op : {"Get"}, id : Ids, sec : {"right", "wrong"}, as : Names, life : Lives]
  \cup [op : {"Use"}, rpc : Rpcs, how : {"one"}, src : Names, alter : Alters, craft : {CR("", "", "", "", {})}]
  \cup [op : {"Use"}, rpc : Rpcs, how : {"one"}, src : {""}, alter : {""}, craft : Crafts]
  \cup [op : {"Use"}, rpc : Rpcs, how : Hows, src : Names, alter : {""}, craft : {CR("", "", "", "", {})}]
MRun(s, c) == TokRun(s, c)
MBound == Cardinality(DOMAIN S.toks) <= 2 /\ S.disk \in Disks \cup {P("K1", "K1")} \cup {P(GenKey(n), GenKey(n)) : n \in 1..MaxGen}
INSTANCE MCKit WITH Init0 <- TZ, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>

(* C08 over consecutive states: an accepted token was signed with the key
   in force, unaltered, and is within its window *)
C08Accept == [][last'.r.res = "ACCEPTED" =>
                 LET c == last'.c t == IF c.src = "" THEN c.craft ELSE S.toks[c.src] IN
                 /\ c.alter = "" /\ t.alg = "" /\ t.key = S.live.pub /\ t.win \notin {"past", "future"}
                 /\ (c.how \in {"one"} \/ c.rpc = "AuthValidateToken")]_<<S, last>>
C08Genuine == [][LET c == last'.c IN
                 c.op = "Use" /\ c.how = "one" /\ c.alter = "" /\ c.src \in DOMAIN S.toks /\ Up(S)
                 /\ S.toks[c.src].key = S.live.pub /\ S.toks[c.src].win # "past" => last'.r.res # "REFUSED"]_<<S, last>>
(* a restart with the same keys keeps every token good *)
C08Restart == [][last'.c.op = "Restart" /\ S.disk = S.live =>
                  \A n \in DOMAIN S.toks : Genuine(S, S.toks[n], "") = Genuine(S', S'.toks[n], "")]_<<S, last>>
(* with new keys none of the old ones is *)
C08Rekey == [][last'.c.op = "Restart" /\ S'.live.pub # S.live.pub =>
                \A n \in DOMAIN S.toks : Genuine(S, S.toks[n], "") => ~Genuine(S', S'.toks[n], "")]_<<S, last>>
=============================================================================
