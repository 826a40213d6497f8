------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The key/value store below the server, for every backend.                *)
(*                                                                         *)
(* kv    what a reader sees: a function from keys <<directory, name>> to   *)
(*       values                                                            *)
(* pend  changes that were reported as failed but may have reached the     *)
(*       disk; they may show up at the next opening, never before          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT StartsWith(_, _)

NoVal == "!none"
SZero == [kv |-> [k \in {} |-> ""], pend |-> {}]

With(f, k, v) == (k :> v) @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Change(f, k, v) == IF v = NoVal THEN Without(f, k) ELSE With(f, k, v)

Matches(k, c) == /\ c.dir \in {"*", k[1]}
                 /\ IF c.star THEN StartsWith(k[2], c.pre) ELSE k[2] = c.pre

(* the announcement of a completed change *)
Event(k, kind, v) ==
  CASE k[1] = "entities" -> <<<<"Entity" \o kind, k[2], v>>>>
    [] k[1] = "groups" -> <<<<"Group" \o kind, k[2], v>>>>
    [] OTHER -> <<>>

O(s, res) == [S |-> s, res |-> res, ev |-> <<>>, val |-> "", keys |-> {}]

(* the outcomes of an operation that is not disturbed *)
StoreRun(s, c) ==
  CASE c.op = "Put" ->
         {[O([s EXCEPT !.kv = With(@, c.k, c.v)], "OK") EXCEPT !.ev = Event(c.k, "Update", c.v)]}
    [] c.op = "Get" ->
         IF c.k \in DOMAIN s.kv THEN {[O(s, "OK") EXCEPT !.val = s.kv[c.k]]} ELSE {O(s, "NOVALUE")}
    [] c.op = "Del" ->
         IF c.k \in DOMAIN s.kv
         THEN {[O([s EXCEPT !.kv = Without(@, c.k)], "OK") EXCEPT !.ev = Event(c.k, "Destroy", "NOVALUE")]}
         \* deleting what is not there is either refused or harmless
         ELSE {O(s, "NOVALUE"), O(s, "OK"), [O(s, "OK") EXCEPT !.ev = Event(c.k, "Destroy", "NOVALUE")]}
    [] c.op = "Keys" ->
         {[O(s, "OK") EXCEPT !.keys = {k \in DOMAIN s.kv : Matches(k, c)}]}
    [] c.op = "Reopen" ->
         \* stopped, with or without closing, and opened again
         {O([kv |-> f, pend |-> {}], "OK") :
            f \in {[k \in {x \in DOMAIN s.kv \cup {p[1] : p \in P} :
                             (\E p \in P : p[1] = x /\ p[2] # NoVal) \/ (x \in DOMAIN s.kv /\ ~\E p \in P : p[1] = x)} |->
                      IF \E p \in P : p[1] = k THEN (CHOOSE p \in P : p[1] = k /\ p[2] # NoVal)[2] ELSE s.kv[k]] :
                    P \in SUBSET s.pend}}

(* the outcome when the system refuses something on the way: an error, and
   the reader sees what was there before *)
Failed(s, c) ==
  CASE c.op = "Put" -> {O([s EXCEPT !.pend = @ \cup {<<c.k, c.v>>}], "ERR")}
    [] c.op = "Del" -> {O([s EXCEPT !.pend = @ \cup {<<c.k, NoVal>>}], "ERR")}
    [] OTHER -> {O(s, "ERR")}

(* the states left behind when the process is killed during an operation *)
Killed(s, c) ==
  {s} \cup (IF c.op \in {"Put", "Del"} THEN {r.S : r \in StoreRun(s, c)} ELSE {})
=============================================================================
