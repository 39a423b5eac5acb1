------------------------------ MODULE VarSpec ------------------------------
EXTENDS VarOps
Expected(st, e) == VDo(st, e)
Cnt(c, v) == Cardinality({i \in 1..Len(c) : c[i] = v})
BagEq(c, d) == Len(c) = Len(d) /\ \A i \in 1..Len(c) : Cnt(c, c[i]) = Cnt(d, c[i])
SameR(x, e, r) == SameX(x.s, e.s) /\ SameX(x.r, r)
(* some arrangement of the array explains what is seen *)
Arranged(st, e, v, ok(_)) == LET c == El(st.h, v) With(d) == [st.h EXCEPT ![v.a].c = d] obs == e.s.h[e.s.x[e.a[3]].a].c IN
  IF \E i \in 1..Len(c) : IsC(c[i])
  THEN \E f \in Permutations(1..Len(c)) : LET d == [i \in 1..Len(c) |-> c[f[i]]] IN SameX(CanonH(With(d), st.x, <<>>).s, e.s) /\ ok(d)
  ELSE BagEq(c, obs) /\ SameX(CanonH(With(obs), st.x, <<>>).s, e.s) /\ ok(obs)
Conforms(st, e) ==
  IF e.op \in {"lit", "copy", "newa", "newd"} THEN SameX(VDo(st, e).s, e.s)
  ELSE LET v == st.x[e.a[3]] m == e.a[1] p == [i \in 1..(Len(e.a) - 3) |-> Arg(st, e.a[i + 3])] IN
    IF ~Fits(st, e, v, p) \/ Refuse(st, e, v, p) THEN SameR(VDo(st, e), e, e.r)
    ELSE IF e.op = "A" /\ m \in {"sort", "shuffle", "bsearch"} THEN
      Arranged(st, e, v, LAMBDA d : (m # "shuffle" => SortedV(st.h, d)) /\ SameX(e.r, IF m = "bsearch" THEN AM([st.h EXCEPT ![v.a].c = d], m, v, p).r ELSE <<N>>))
    ELSE IF e.op = "V" /\ m = "str" /\ TwinKeys(st.h, v) THEN SameX(e.s, CanonH(st.h, st.x, <<>>).s)
    ELSE IF e.op = "V" /\ m = "deep" /\ DeepO(st.h, v, p[1]) # DeepU(st.h, v, p[1]) THEN SameX(e.s, CanonH(st.h, st.x, <<>>).s)
    ELSE IF e.op = "V" /\ m = "conv" /\ p[1].t = "ps" /\ Ty(v) = "a" /\ TwinKeys(st.h, v) THEN TRUE
    ELSE IF e.op = "V" /\ m = "ops" THEN LET x == VDo(st, e) IN SameX(e.s, x.s) /\ Len(e.r) = Len(Ops) /\ \A i \in 1..Len(Ops) : Free(st.h, Ops[i], v, p[1]) \/ SameX(x.r[i], e.r[i])
    ELSE SameR(VDo(st, e), e, e.r)
After(st, e) == e.s
============================================================================
