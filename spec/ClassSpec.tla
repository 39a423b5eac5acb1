----------------------------- MODULE ClassSpec -----------------------------
(* Traces of the classifiers, clusterings and univariate models.           *)
EXTENDS ClassOps
Eq(a, b) == SameTol(a, b, "1e-8", "1e-8")
Others(st, e, k) == (DOMAIN st) \ {k} = (DOMAIN e.s) \ {k} /\ \A j \in (DOMAIN st) \ {k} : SameX(st[j], e.s[j])
Made(st, e, m) == e.r = "ok" /\ Others(st, e, e.a[1]) /\ Eq(e.s[e.a[1]], m)
Mo(kind, X, y, k, p) == [kind |-> kind, X |-> X, y |-> y, k |-> k, p |-> p]
Nb == {"gauss", "bern", "multi"}
Labels(st, m, q) == IF m.kind = "knn" THEN KnnLabels(st[m.X], st[m.y], m.k, q) ELSE NbLabels(m, st[m.X], st[m.y], q)
NearMean(mu, q, got) == \E j \in Near(mu, q) : SameX(mu.d[j], got)
\* the share of training samples predicted right: ties in a prediction leave a range
ScoreOk(st, m, s) ==
  LET X == st[m.X] y == st[m.y] L == [i \in 1..X.r |-> Labels(st, m, X.d[i])]
      sure == Cardinality({i \in 1..X.r : L[i] = {y[i]}}) may == Cardinality({i \in 1..X.r : y[i] \in L[i]}) IN
  \E n \in sure..may : Eq(s, RDiv(n, X.r))
CConf(st, e) ==
  LET a == e.a op == e.op IN
  CASE op = "C.knn" -> Made(st, e, Mo("knn", a[2], a[3], a[4], "none"))
    [] op = "C.knn.k" -> Made(st, e, [st[a[1]] EXCEPT !.k = a[2]])
    [] op = "C.km" -> LET m == e.s[a[1]] IN
         /\ e.r = "ok" /\ Others(st, e, a[1]) /\ m.kind = "kmeans" /\ m.X = a[2] /\ m.k = a[3] /\ m.y = a[4]
         /\ InitMu(st[a[2]], m.p.mu, a[3], a[4])
    [] op = "C.km.means" -> e.r = "ok" /\ Others(st, e, a[1]) /\ SameX([st[a[1]] EXCEPT !.p.mu = a[2]], e.s[a[1]])
    [] op = "C.train" -> LET m == st[a[1]] IN
         /\ e.r = "ok" /\ Others(st, e, a[1])
         /\ (CASE m.kind = "kmeans" ->
              LET n == e.s[a[1]] X == st[m.X] IN
              /\ SameX([m EXCEPT !.p = 0], [n EXCEPT !.p = 0])
              /\ LET mus == Lloyd(<<m.p.mu>>, X, IF a[2] < 1 THEN 1 ELSE a[2]) IN \E t \in 1..Len(mus) : Eq(mus[t], n.p.mu)
              /\ ValidR(n.p.r, n.p.mu, X)
            [] m.kind = "uni" -> Eq([m EXCEPT !.p = LineFit(st[m.X], st[m.y])], e.s[a[1]]))
    [] op = "C.nb" -> Made(st, e, Mo(a[2], a[3], a[4], a[5], NbFit(a[2], st[a[3]], st[a[4]], a[5])))
    [] op = "C.uni" -> Made(st, e, Mo("uni", a[2], a[3], 0, LineFit(st[a[2]], st[a[3]])))
    [] op = "C.uni.set" -> Made(st, e, [st[a[1]] EXCEPT !.p = [b0 |-> a[2], b1 |-> a[3]]])
    [] op = "C.out" -> Made(st, e, Mo("outlier", "none", "none", 0, a[2]))
    [] op = "C.out.bind" -> LET X == st[a[2]] IN Len(e.r) = X.r /\ (\A i \in 1..X.r : IsOut(X.d[i], st[a[1]].p, e.r[i])) /\ SameX(st, e.s)
    [] op = "C.out.ix" -> LET X == st[a[2]] IN (\E w \in IxRows(X, st[a[1]].p, X.r) : SameX(w, e.r)) /\ SameX(st, e.s)
    [] op = "C.km.sil" -> LET m == st[a[1]] X == st[m.X] IN Eq(e.r, [i \in 1..X.r |-> Silhouette(X, m.p.r, i)]) /\ SameX(st, e.s)
    [] op = "C.testv" -> LET m == st[a[1]] q == st[a[2]] IN
         /\ SameX(st, e.s)
         /\ (CASE m.kind = "knn" \/ m.kind \in Nb -> e.r \in Labels(st, m, q)
               [] m.kind = "kmeans" -> NearMean(m.p.mu, q, e.r)
               [] m.kind = "uni" -> Eq(e.r, [i \in 1..Len(q) |-> Line(m.p, q[i])])
               [] m.kind = "outlier" -> IsOut(q, m.p, e.r))
    [] op = "C.testm" -> LET m == st[a[1]] q == a[2] Q == IF m.kind = "uni" THEN 0 ELSE st[q] IN
         /\ SameX(st, e.s)
         /\ (CASE m.kind = "knn" \/ m.kind \in Nb -> Len(e.r) = Q.r /\ \A i \in 1..Q.r : e.r[i] \in Labels(st, m, Q.d[i])
               [] m.kind = "kmeans" -> e.r.r = Q.r /\ \A i \in 1..Q.r : NearMean(m.p.mu, Q.d[i], e.r.d[i])
               [] m.kind = "uni" -> Eq(e.r, Line(m.p, q))
               [] m.kind = "outlier" -> Len(e.r) = Q.r /\ \A i \in 1..Q.r : IsOut(Q.d[i], m.p, e.r[i]))
    [] op = "C.score" -> LET m == st[a[1]] IN
         /\ SameX(st, e.s)
         /\ IF m.kind = "kmeans" THEN Eq(e.r, KCost(m.p.mu, m.p.r, st[m.X])) ELSE ScoreOk(st, m, e.r)
Base == {"M.new", "V.new"}
Expected(st, e) == CASE e.op \in Base -> MDo(st, e)
  [] e.op = "C.nb" -> NbFit(e.a[2], st[e.a[3]], st[e.a[4]], e.a[5])
  [] e.op = "C.testv" /\ st[e.a[1]].kind \in Nb \cup {"knn"} -> Labels(st, st[e.a[1]], st[e.a[2]])
  [] e.op = "C.train" /\ st[e.a[1]].kind = "kmeans" -> Lloyd(<<st[e.a[1]].p.mu>>, st[st[e.a[1]].X], IF e.a[2] < 1 THEN 1 ELSE e.a[2])
  [] OTHER -> "a step of the specification"
Conforms(st, e) == IF e.op \in Base THEN LET o == MDo(st, e) IN Same(o.r, e.r) /\ Same(o.s, e.s) ELSE CConf(st, e)
After(st, e) == e.s
=========================================================================
