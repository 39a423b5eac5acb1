------------------------------ MODULE EnsSpec ------------------------------
(* Every learner as a black box: what any of them must do whatever its      *)
(* training rule.  Trained states are taken from the recording; only frame  *)
(* conditions and the agreement of the prediction calls are constrained.    *)
EXTENDS MatOps, FiniteSets
Others(st, e, k) == \A j \in DOMAIN st : j # k => SameX(st[j], e.s[j])
\* the calls that may change the learner in their slot, and nothing else
Changes == {"L.new", "L.rand", "L.train", "N.new", "N.train", "C.knn", "C.knn.k", "C.km", "C.km.means", "C.train", "C.nb", "C.uni", "C.uni.set", "C.out"}
ListOf(x) == IF "r" \in DOMAIN x THEN x.d ELSE x
IsM(x) == "r" \in DOMAIN x
Agree(r) ==
  LET n == Len(r.b) A == r.a IN
  /\ SameX(r.a, r.d) /\ SameX(r.b, r.c) /\ r.kept = TRUE
  /\ Len(A) = n /\ \A i \in 1..n : SameTol(A[i], r.b[i], "1e-9", "1e-9")
\* matrices are recorded as their rows here
Rows(x) == x
EConf(st, e) ==
  CASE e.op \in Changes -> e.r = "ok" /\ Others(st, e, e.a[1])
    [] e.op = "E.agree" -> SameX(st, e.s) /\ Agree(e.r)
    [] e.op = "E.score" -> \* <<slot, data, labels, kind of label>>: r |-> [score, hat]
         LET y == st[e.a[3]] h == e.r.hat IN
         /\ SameX(st, e.s)
         /\ LET rows == e.a[4] = "rows"
                \* a prediction half way between two labels may be rounded either way
                Near(x) == RLe(RAbs(RSub(RFun("round", RSub(x, "0.5")), RSub(x, "0.5"))), "1e-9")
                Eqr(x, z) == REq(RFun("round", x), z)
                Loose(x, z) == Eqr(x, z) \/ (Near(x) /\ RLe(RAbs(RSub(x, z)), "0.6"))
                Hit(i) == IF rows THEN \A j \in 1..Len(h[i]) : Eqr(h[i][j], y.d[i][j]) /\ ~Near(h[i][j]) ELSE Eqr(h[i], y[i]) /\ ~Near(h[i])
                May(i) == IF rows THEN \A j \in 1..Len(h[i]) : Loose(h[i][j], y.d[i][j]) ELSE Loose(h[i], y[i])
                N(x) == RMul(x, Len(h))
            IN /\ RLe(RSub(Cardinality({i \in 1..Len(h) : Hit(i)}), "1e-6"), N(e.r.score))
               /\ RLe(N(e.r.score), RAdd(Cardinality({i \in 1..Len(h) : May(i)}), "1e-6"))
Expected(st, e) == "agreement"
Base == {"M.new", "V.new"}
Conforms(st, e) == IF e.op \in Base THEN LET o == MDo(st, e) IN Same(o.r, e.r) /\ Same(o.s, e.s) ELSE EConf(st, e)
After(st, e) == e.s
=========================================================================
