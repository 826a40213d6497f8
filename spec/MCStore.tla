------------------------------ MODULE MCStore -------------------------------
(* Small stores, exhaustively. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Dirs, Names, Vals, Faults, Export
VARIABLES S, last
MStarts(n, p) == p = "" \/ p = n \/ (p = "a" /\ n = "ab")
INSTANCE Store WITH StartsWith <- MStarts
Ks == Dirs \X Names
MCalls(s) ==
  [op : {"Put"}, k : Ks, v : Vals] \cup [op : {"Get", "Del"}, k : Ks]
  \cup [op : {"Keys"}, dir : Dirs \cup {"*"}, pre : Names \cup {""}, star : BOOLEAN]
  \cup [op : {"Reopen"}]
(* with faults, every operation may also fail or be cut short by a kill *)
MRun(s, c) == StoreRun(s, c) \cup
  (IF Faults /\ c.op # "Reopen" THEN Failed(s, c) \cup {O(x, "DIED") : x \in Killed(s, c)} ELSE {})
MBound == Cardinality(S.pend) <= 2
INSTANCE MCKit WITH Init0 <- SZero, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>

(* C25, formulated over two consecutive states *)
C25Read == [][last'.c.op \in {"Get", "Keys"} => S'.kv = S.kv]_<<S, last>>
C25Put == [][last'.c.op = "Put" /\ last'.r.res = "OK" =>
              /\ S'.kv[last'.c.k] = last'.c.v
              /\ \A k \in Ks \ {last'.c.k} : (k \in DOMAIN S.kv <=> k \in DOMAIN S'.kv) /\ (k \in DOMAIN S.kv => S.kv[k] = S'.kv[k])
              /\ (last'.c.k[1] \in {"entities", "groups"} => Len(last'.r.ev) = 1)]_<<S, last>>
C25Del == [][last'.c.op = "Del" /\ last'.r.res \in {"OK", "NOVALUE"} => last'.c.k \notin DOMAIN S'.kv]_<<S, last>>
C23Fail == [][last'.r.res = "ERR" => S'.kv = S.kv /\ last'.r.ev = <<>>]_<<S, last>>
(* C24: whatever happens, only the key being changed is affected, and it
   has its old or its new value *)
C24Kill == [][last'.r.res = "DIED" =>
               \A k \in Ks : \/ (k \in DOMAIN S.kv <=> k \in DOMAIN S'.kv) /\ (k \in DOMAIN S.kv => S.kv[k] = S'.kv[k])
                             \/ last'.c.op = "Put" /\ last'.c.k = k /\ k \in DOMAIN S'.kv /\ S'.kv[k] = last'.c.v
                             \/ last'.c.op = "Del" /\ last'.c.k = k /\ k \notin DOMAIN S'.kv]_<<S, last>>
C24Reopen == [][last'.c.op = "Reopen" /\ S.pend = {} => S'.kv = S.kv]_<<S, last>>
=============================================================================
