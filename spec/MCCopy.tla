------------------------------- MODULE MCCopy -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Ks, Vals, Odd, Export
VARIABLES S, last
INSTANCE Copy
MCalls(s) == [op : {"Put"}, b : Stores, k : Ks, v : Vals] \cup [op : {"Del"}, b : Stores, k : Ks]
             \cup [op : {"Copy"}, src : Stores \cup Odd, dst : Stores \cup Odd, trunc : BOOLEAN, dry : BOOLEAN]
MRun(s, c) == {r \in CopyRun(s, c) : r.res = "OK"}
KK == {<<"entities", "a">>, <<"groups", "a">>}
INSTANCE MCKit WITH Init0 <- KZ, Calls <- MCalls, Run <- MRun
Spec == KInit /\ [][KNext]_<<S, last>>
C34 == [][LET c == last'.c IN c.op = "Copy" =>
           /\ (c.src \in Stores => S'[c.src] = S[c.src])
           /\ (c.dry => S' = S)
           /\ (c.dst \in Stores /\ c.src \in Stores /\ c.src # c.dst /\ ~c.dry =>
                 /\ \A k \in DOMAIN S[c.src] : k \in DOMAIN S'[c.dst] /\ S'[c.dst][k] = S[c.src][k]
                 /\ \A k \in DOMAIN S[c.dst] \ DOMAIN S[c.src] :
                      IF c.trunc THEN k \notin DOMAIN S'[c.dst] ELSE k \in DOMAIN S'[c.dst] /\ S'[c.dst][k] = S[c.dst][k])]_<<S, last>>
=============================================================================
