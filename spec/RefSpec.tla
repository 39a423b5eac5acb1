------------------------------ MODULE RefSpec ------------------------------
(* Traces of reference-counted and plain objects.  The record also gives     *)
(* what ObjectDB resolves ("db"), how many objects it counts beyond the      *)
(* start ("n"), the reference counts ("rc") and detected misuse ("bad").     *)
EXTENDS RefOps
Expected(st, e) == RDo(st, e)
InVec(s, id) == \E k \in DOMAIN s : s[k].k = "vec" /\ CountIn(s[k].d, id) > 0
RcOk(s, o, rc) == \A i \in 1..Len(o) : LET id == o[i].i IN
  IF o[i].c = "Plain" THEN rc[i] = -1 ELSE LET n == Owners(s, o, id) IN
    IF InVec(s, id) THEN rc[i] >= 1 /\ rc[i] <= n ELSE rc[i] = n
Conforms(st, e) ==
  LET x == RDo(st, e) t == e.s IN
  /\ SameX(x.r, e.r)
  /\ SameX(Sl(x.s), t.s) /\ SameX(Ob(x.s), t.o)
  /\ t.bad = 0 /\ t.n = Len(t.o) /\ SameX(t.db, [i \in 1..Len(t.o) |-> t.o[i].i])
  /\ RcOk(t.s, t.o, t.rc)
After(st, e) == e.s
============================================================================
