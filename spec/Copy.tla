-------------------------------- MODULE Copy --------------------------------
(***************************************************************************)
(* Copying one store to another.  The state holds the content of both.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Stores == {"filesystem", "bitcask"}
KZ == [b \in Stores |-> [k \in {} |-> ""]]
O(s, res) == [S |-> s, res |-> res]
Copied(s, c) == IF c.trunc THEN s[c.src] ELSE s[c.src] @@ s[c.dst]
CopyRun(s, c) ==
  CASE c.op = "Put" -> {O([s EXCEPT ![c.b] = (c.k :> c.v) @@ @], "OK")}
    [] c.op = "Del" -> {O([s EXCEPT ![c.b] = [k \in DOMAIN @ \ {c.k} |-> @[k]]], "OK")}
    [] c.op = "Copy" ->
         IF {c.src, c.dst} \subseteq Stores /\ c.src # c.dst
         THEN {O(IF c.dry THEN s ELSE [s EXCEPT ![c.dst] = Copied(s, c)], "OK")}
         \* nothing to copy to, or from
         ELSE {O(s, "ERR"), O(s, "OK")}
(* what may be left when the system refuses something on the way: the
   target's records are old, new, or, when truncating, missing *)
MayBe(s, c, f) ==
  /\ \A k \in DOMAIN f : \/ k \in DOMAIN s[c.src] /\ f[k] = s[c.src][k]
                         \/ k \in DOMAIN s[c.dst] /\ f[k] = s[c.dst][k]
  /\ c.trunc \/ DOMAIN s[c.dst] \subseteq DOMAIN f
=============================================================================
