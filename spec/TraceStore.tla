----------------------------- MODULE TraceStore -----------------------------
(* Judges traces of the real storage backends. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, S, nbad
TStarts(n, p) == Len(p) <= Len(n) /\ SubSeq(n, 1, Len(p)) = p
INSTANCE Store WITH StartsWith <- TStarts

Range(f) == {f[x] : x \in DOMAIN f}
Fld(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
KV(l) == [k \in {<<l[j][1], l[j][2]>> : j \in DOMAIN l} |-> l[CHOOSE j \in DOMAIN l : <<l[j][1], l[j][2]>> = k][3]]
Exact(l, f) == KV(l) = f /\ Len(l) = Cardinality(DOMAIN f)

(* an answer L of the real store against an outcome of the specification *)
\* the value an observer reads on announcement may be what fails
SameEv(a, b, errs) == a = b \/ (errs /\ Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j][1] = b[j][1] /\ a[j][2] = b[j][2] /\ a[j][3] \in {b[j][3], "ERR"})
SameX(L, r, errs) ==
  /\ L.res = r.res
  /\ (L.op = "Get" => L.val = r.val)
  /\ (L.op = "Keys" => Len(L.out) = Cardinality(r.keys) /\ {<<x[1], x[2]>> : x \in Range(L.out)} = r.keys)
  /\ SameEv(Fld(L, "ev", <<>>), r.ev, errs)
Same(L, r) == SameX(L, r, FALSE)

Call(c) == IF "k" \in DOMAIN c THEN [c EXCEPT !.k = <<c.k[1], c.k[2]>>] ELSE c

StTags(L, f) == IF "sterr" \notin DOMAIN L /\ Exact(L.st, f) THEN {} ELSE {"C25"}

JudgeCall(s, L) ==
  LET ok == {r \in StoreRun(s, Call(L)) : Same(L, r)}
      nx == IF ok # {} THEN CHOOSE r \in ok : TRUE ELSE O(s, "?")
      t == (IF ok # {} THEN {} ELSE {"C25"}) \cup StTags(L, nx.S.kv)
  IN [tags |-> t, S |-> [nx.S EXCEPT !.kv = KV(L.st)]]

JudgeReopen(s, L) ==
  LET t == IF L.res = "OK" /\ "sterr" \notin DOMAIN L /\ (\E r \in StoreRun(s, [op |-> "Reopen"]) : Exact(L.st, r.S.kv)) THEN {} ELSE {"C24", "C25"}
  IN [tags |-> t, S |-> [SZero EXCEPT !.kv = KV(L.st)]]

(* branches on keys of their own: each is sequential *)
JudgePar(s, L) ==
  LET RECURSIVE Walk(_, _, _)
      Walk(b, j, X) ==
        IF j > Len(b) THEN X
        ELSE IF b[j].op = "Keys" THEN Walk(b, j + 1, [X EXCEPT !.bad = @ \/ b[j].res # "OK"])
        ELSE LET rs == {r \in StoreRun(X.S, Call(b[j])) : r.res = b[j].res /\ (b[j].op = "Get" => r.val = b[j].val)}
             IN IF rs = {} THEN [X EXCEPT !.bad = TRUE]
                ELSE LET r == CHOOSE r \in rs : (\A q \in rs : Len(q.ev) <= Len(r.ev)) IN
                     Walk(b, j + 1, [S |-> r.S, bad |-> X.bad, ev |-> X.ev \o r.ev])
      RECURSIVE All(_, _)
      All(k, X) == IF k > Len(L.branches) THEN X ELSE All(k + 1, Walk(L.branches[k], 1, X))
      X == All(1, [S |-> s, bad |-> FALSE, ev |-> <<>>])
      Count(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})
      NoDest(q) == {x \in Range(q) : x[3] # "NOVALUE"}
      t == IF X.bad \/ NoDest(X.ev) # NoDest(L.ev) \/ (\E x \in NoDest(X.ev) : Count(X.ev, x) # Count(L.ev, x))
           THEN {"C25", "C26"} ELSE {}
      u == IF StTags(L, X.S.kv) # {} THEN {"C25", "C26"} ELSE {}
  IN [tags |-> t \cup u, S |-> [SZero EXCEPT !.kv = KV(L.st)]]

(* a child process that was killed, or had a system call fail *)
JudgeKill(s, L) ==
  LET errs == L.mode = "error"
      RECURSIVE Walk(_, _)
      \* follows the acknowledged calls; X.S is what readers saw
      Walk(j, X) ==
        IF j > Len(L.acks) THEN X
        ELSE LET c == Call(L.steps[j])
                 A == [op |-> c.op] @@ L.acks[j]
                 rs == StoreRun(X.S, c) \cup (IF errs THEN Failed(X.S, c) ELSE {})
                 ok == {r \in rs : SameX(A, r, errs)}
             IN IF ok = {} THEN Walk(j + 1, [X EXCEPT !.bad = @ \cup {c.op}])
                ELSE Walk(j + 1, [X EXCEPT !.S = (CHOOSE r \in ok : TRUE).S])
      \* the state the child starts from
      X == Walk(1, [S |-> s, bad |-> {}])
      n == Len(L.acks)
      ends == IF L.died /\ n < Len(L.steps) THEN Killed(X.S, Call(L.steps[n + 1])) ELSE {X.S}
      fin == UNION {{r.S.kv : r \in StoreRun(e, [op |-> "Reopen"])} : e \in ends}
      okst == L.res = "OK" /\ "sterr" \notin DOMAIN L /\ \E f \in fin : Exact(L.st, f)
      okc == ~L.cdone \/ ("csterr" \in DOMAIN L /\ errs) \/ Exact(L.cst, X.S.kv)
             \/ (errs /\ \E k \in DOMAIN L.cst : L.cst[k][3] = "?ERR" /\ TRUE)
      t == (IF X.bad = {} THEN {} ELSE {"C25"} \cup (IF errs /\ X.bad \cap {"Put", "Del"} # {} THEN {"C23"} ELSE {}))
           \cup (IF okc THEN {} ELSE {"C25"} \cup (IF errs THEN {"C23"} ELSE {}))
           \cup (IF okst THEN {} ELSE {"C24"})
           \* the child must be able to open the store, unless disturbed while doing so
           \cup (IF ~errs /\ L.cres # "OK" THEN {"C24", "C25"} ELSE {})
  IN [tags |-> t, S |-> [SZero EXCEPT !.kv = KV(L.st)]]

TJudge(s, L) ==
  CASE L.op = "Reopen" -> JudgeReopen(s, L)
    [] L.op = "KillRun" -> JudgeKill(s, L)
    [] L.op = "Par" -> JudgePar(s, L)
    [] L.op = "CRASH" -> [tags |-> {"C25", "C35"} \cup (IF L.during = "Par" THEN {"C26"} ELSE {}), S |-> s]
    [] OTHER -> JudgeCall(s, L)
TZero(L) == SZero

TLines == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceKit WITH KitLines <- TLines, Zero <- TZero, Judge <- TJudge
Spec == KitInit /\ [][KitNext]_<<i, S, nbad>>
=============================================================================
