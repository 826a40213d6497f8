------------------------------- MODULE MCKit --------------------------------
(***************************************************************************)
(* Exploration of a specification given by its set of calls and the        *)
(* outcomes Run(s, c) of a call, with export of every transition.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Init0, Calls(_), Run(_, _), Export
VARIABLES S, last

KView == S
KInit == /\ S = Init0
         /\ last = [c |-> [op |-> "init"], r |-> [res |-> "OK"], flip |-> FALSE]
         /\ Export => PrintT("PRELUDE " \o ToJson([pre |-> <<>>, s |-> TLCFP(S)]))
\* flip makes an action that changes nothing observable a step all the same
KNext == \E c \in Calls(S) : \E r \in Run(S, c) :
           /\ S' = r.S
           /\ last' = [c |-> c, r |-> r, flip |-> ~last.flip]
           /\ Export => PrintT("EDGE " \o ToJson([s |-> TLCFP(S), c |-> c, t |-> TLCFP(S')]))
=============================================================================
