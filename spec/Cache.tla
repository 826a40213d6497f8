------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The token caches of the client library.                                 *)
(*                                                                         *)
(* shared  whether all instances see the same tokens (files) or each its   *)
(*         own (memory)                                                    *)
(* kv      the token of <<instance, owner>>; the instance is 0 if shared   *)
(* loose   owners whose token file somebody else made accessible           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CZ(shared) == [shared |-> shared, kv |-> [x \in {} |-> ""], loose |-> {}]
At(s, c) == <<IF s.shared THEN 0 ELSE c.inst, c.o>>
Without(f, D) == [x \in DOMAIN f \ D |-> f[x]]
O(s, res) == [S |-> s, res |-> res, val |-> ""]

CacheRun(s, c) ==
  CASE c.op = "Put" -> {O([s EXCEPT !.kv = (At(s, c) :> c.t) @@ @, !.loose = @ \ {c.o}], "OK")}
    [] c.op = "Get" -> IF At(s, c) \in DOMAIN s.kv THEN {[O(s, "OK") EXCEPT !.val = s.kv[At(s, c)]]} ELSE {O(s, "NOTOKEN")}
    [] c.op = "Del" -> {O([s EXCEPT !.kv = Without(@, {At(s, c)}), !.loose = @ \ {c.o}], "OK")}
    [] c.op = "New" -> {O(IF s.shared THEN s ELSE [s EXCEPT !.kv = Without(@, {x \in DOMAIN @ : x[1] = c.inst})], "OK")}
    [] c.op = "Loosen" -> {O(IF s.shared THEN [s EXCEPT !.loose = {x[2] : x \in DOMAIN s.kv}] ELSE s, "OK")}
=============================================================================
