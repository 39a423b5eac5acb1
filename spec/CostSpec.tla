----------------------------- MODULE CostSpec -----------------------------
EXTENDS CostOps
Do(st, e) == CASE e.op = "C" -> CDo(st, e) [] e.op = "C.dual" -> DualDo(st, e) [] e.op = "G" -> GDo(st, e) [] OTHER -> MDo(st, e)
Expected(st, e) == Do(st, e)
Clipped(e) == (e.op = "G" /\ e.a[4] = "clip" /\ e.a[1] # "term") =>
  LET w == e.s[e.a[7]] v == IF e.a[2] = "v" THEN w ELSE FlatM(w) IN \A i \in 1..Len(v) : RLe(e.a[5], v[i]) /\ RLe(v[i], e.a[6])
Conforms(st, e) == LET o == Do(st, e) IN SameTol(o.r, e.r, "1e-8", "1e-9") /\ SameTol(o.s, e.s, "1e-8", "1e-9") /\ Clipped(e)
After(st, e) == e.s
=========================================================================
