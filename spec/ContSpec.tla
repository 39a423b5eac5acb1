------------------------------ MODULE ContSpec ------------------------------
(* Traces of the generic containers.                                         *)
EXTENDS ContOps
S0(st) == IF "%" \in DOMAIN st THEN Slots(st) ELSE st
Expected(st, e) == IF e.op = "Q.sortarr" THEN "sorted" ELSE CDo(S0(st), e)
Conforms(st, e) ==
  LET s == S0(st) t == S0(e.s) IN
  /\ (IF e.op = "Q.sortarr" THEN SameX(s, t) /\ SortOk(e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.r)
      ELSE LET o == CDo(s, e) IN SameX(o.r, e.r) /\ SameX(o.s, t))
  /\ StoreOk(t, e.s["%"])
After(st, e) == e.s
=========================================================================
