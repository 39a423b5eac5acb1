---------------------------- MODULE ClassTheory ----------------------------
(* Design properties of the classifiers, clusterings and line fits on all  *)
(* small data sets.                                                        *)
EXTENDS ClassOps
VARIABLES a, b, c, d, y, k
Init == a \in 0..2 /\ b \in 0..2 /\ c \in {0, 3} /\ d \in {1, 4} /\ y \in [1..4 -> 0..1] /\ k \in 1..4
Next == UNCHANGED <<a, b, c, d, y, k>>
X == [r |-> 4, c |-> 2, d |-> <<<<a, b>>, <<b, c>>, <<c, d>>, <<d, a>>>>]
mu == [r |-> 2, c |-> 2, d |-> <<<<a, b>>, <<c, d>>>>]
Knn == \A q \in {X.d[1], <<0, 0>>, <<2, 3>>} :
  /\ KnnLabels(X, y, k, q) # {}
  /\ KnnLabels(X, y, 4, q) = Majority(1..4, y)                                  \* all samples: the mode
  /\ \A S \in Selections(X, k, q) : Cardinality(S) = k /\ \A i \in S, j \in (1..4) \ S : RLe(Dist2(X.d[i], q), Dist2(X.d[j], q))
  /\ k = 1 => \A i \in 1..4 : (\A j \in 1..4 : j # i => ~SameX(X.d[j], X.d[i])) => KnnLabels(X, y, 1, X.d[i]) = {y[i]}
Hot(f) == [r |-> 4, c |-> 2, d |-> [i \in 1..4 |-> [j \in 1..2 |-> IF f[i] = j THEN 1 ELSE 0]]]
\* an epoch never raises the cost, and a mean with members is their centre
KM == \A f \in Assigns(mu, X, 4) :
  /\ ValidR(Hot(f), mu, X)
  /\ LET n == Means(mu, X, f) IN \A g \in Assigns(n, X, 4) :
       RLe(KCost(n, Hot(g), X), RAdd(KCost(n, Hot(f), X), R("1e-9"))) /\ RLe(KCost(n, Hot(f), X), RAdd(KCost(mu, Hot(f), X), R("1e-9")))
  /\ \A i \in 1..4 : LET s == Silhouette(X, Hot(f), i) IN (\A j \in 1..2 : Members(f, j) # <<>>) /\ (\E t, u \in 1..4 : f[t] = f[u] /\ ~SameX(X.d[t], X.d[u])) => (~RFinite(s)) \/ (RLe(-1, s) /\ RLe(s, 1))
Two == \A l \in 0..1 : \E i \in 1..4 : y[i] = l
Bern == Two =>
  LET m == [kind |-> "bern", k |-> 2] IN
  /\ Same(RSum([l \in 1..2 |-> Prior(y, l - 1)]), 1)
  /\ \A i \in 1..4 : NbLabels(m, X, y, X.d[i]) # {} /\ NbLabels([m EXCEPT !.kind = "multi"], X, y, X.d[i]) # {}
  /\ NbLabels([m EXCEPT !.kind = "multi"], X, y, <<99>>) = {l \in 0..1 : \A o \in 0..1 : RLe(Prior(y, o), Prior(y, l))}   \* unknown words: the prior decides
v == <<a, b, c, d, 1, 2>>
Chebyshev == \A t \in {1, 2, 3} : \A ix \in OutIx(v, t) : RLe(Len(ix) * t * t, 5)     \* at most (n - 1) / t^2 outliers
xs == <<a, b, c, d>>
ys == <<y[1], y[2] + k, y[3], y[4]>>
LineOk == ~Flat(xs) => LET p == LineFit(xs, ys) r == [i \in 1..4 |-> RSub(ys[i], Line(p, xs[i]))] IN
  /\ SameTol(RSum(r), 0, "1e-9", "1e-9") /\ SameTol(RDot(r, xs), 0, "1e-9", "1e-8")
  /\ Same(Line(p, Mean(xs)), Mean(ys))
=========================================================================
