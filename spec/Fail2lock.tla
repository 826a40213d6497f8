------------------------------ MODULE Fail2lock ------------------------------
(***************************************************************************)
(* A server with the fail2lock plugin, which refuses the authentication of *)
(* an entity that failed too often lately.                                 *)
(*                                                                         *)
(* To the state of NetAuth.tla this adds f, the failures that count        *)
(* against an entity: a sequence of when they were.                        *)
(***************************************************************************)
EXTENDS NetAuth

Marker == "fail2lock"
(* an administrator asked for the failures to be forgotten *)
Marked(r) == LET ms == {p \in r.um : Base(p[1]) = Marker} IN Cardinality(ms) = 1 /\ \A p \in ms : p[2] = "RESET"
Unmark(r) == [r EXCEPT !.um = {p \in @ : Base(p[1]) # Marker}]
Failures(S, id) == IF id \in DOMAIN S.f THEN S.f[id] ELSE <<>>
Forget(S, id) == [S EXCEPT !.f = Without(@, id)]
Count(S, id, t) == [S EXCEPT !.f = With(@, id, Append(Failures(S, id), t))]

(* An attempt to authenticate; over: there were too many failures lately;
   t: when it takes place. *)
Attempt(S, id, s, over, t) ==
  IF id \notin DOMAIN S.e THEN [ok |-> FALSE, S |-> S]
  ELSE LET r == S.e[id]
           m == Marked(r)
           right == ~r.lk /\ r.sec = s
       IN IF ~m /\ over THEN [ok |-> FALSE, S |-> S]
          ELSE IF right THEN [ok |-> TRUE, S |-> SetE(Forget(S, id), id, IF m THEN Unmark(r) ELSE r)]
          ELSE [ok |-> FALSE, S |-> IF m THEN Forget(S, id) ELSE Count(S, id, t)]

(* the other requests *)
Restarted(S) == [S EXCEPT !.f = [x \in {} |-> <<>>]]
=============================================================================
