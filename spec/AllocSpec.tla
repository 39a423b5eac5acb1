------------------------------ MODULE AllocSpec ------------------------------
(* Traces of allocators: a state has at most one byte pool "p" and one paged  *)
(* allocator "g".                                                             *)
EXTENDS AllocOps
Others(s, t, k) == DOMAIN s \cup {k} = DOMAIN t \cup {k} /\ \A j \in DOMAIN s \ {k} : s[j] = t[j]
Expected(st, e) == st
Conforms(st, e) ==
  CASE e.op = "A.new" -> SameX(e.r, "ok") /\ Others(st, e.s, "p") /\ NewPool(e, e.s.p)
    [] e.op = "G.new" -> SameX(e.r, "ok") /\ Others(st, e.s, "g") /\ Empty(e.s.g, Pow2(1, e.a[2])) /\ e.s.g.tr = e.a[1]
    [] SubSeq(e.op, 1, 2) = "A." -> Others(st, e.s, "p") /\ PoolOK(st.p, e, e.r, e.s.p)
    [] OTHER -> Others(st, e.s, "g") /\ PageOK(st.g, e, e.r, e.s.g)
After(st, e) == e.s
============================================================================
