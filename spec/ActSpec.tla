------------------------------ MODULE ActSpec ------------------------------
EXTENDS ActOps
Do(st, e) == IF e.op = "A" THEN ADo(st, e) ELSE MDo(st, e)
Expected(st, e) == Do(st, e)
(* the library rounds the constants of the gelu derivative to six digits *)
Tol(e) == IF e.op = "A" /\ e.a[2] = "gelu" THEN "2e-5" ELSE "1e-8"
(* what a normalised row must be, whatever its definition *)
RowOk(v) == v = <<>> \/ ((\A i \in 1..Len(v) : RLt(0, v[i]) /\ RLe(v[i], 1)) /\ SameTol(RSum(v), 1, "1e-9", "1e-9"))
Normal(e) == IF e.op = "A" /\ e.a[1] \notin {"param", "jacobian", "jacobians"} /\ e.a[2] \in PerRow /\ e.a[4] # "r"
             THEN LET x == e.s[e.a[6]] IN IF e.a[4] = "v" THEN RowOk(x) ELSE \A i \in 1..x.r : RowOk(x.d[i]) ELSE TRUE
Conforms(st, e) == LET o == Do(st, e) IN SameTol(o.r, e.r, Tol(e), Tol(e)) /\ SameTol(o.s, e.s, Tol(e), Tol(e)) /\ Normal(e)
After(st, e) == e.s
=========================================================================
