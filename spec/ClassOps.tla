------------------------------ MODULE ClassOps ------------------------------
(* Neighbours, clusters, naive Bayes, outliers and the univariate line.    *)
(* A model is [kind, X, y, k, p]: data slots, a size and fitted parameters. *)
EXTENDS StatOps
Dist2(x, z) == NormSq(Diff(x, z))
Dist(x, z) == RSqrt(Dist2(x, z))
Slack(x) == RMul(R("1e-9"), RAdd(1, RAbs(x)))
MinR(s) == Red("min_element", s)
MaxR(s) == Red("max_element", s)
NearMin(D) == LET m == MinR(D) IN {j \in 1..Len(D) : RLe(D[j], RAdd(m, Slack(m)))}
NearMax(D) == LET m == MaxR(D) IN {j \in 1..Len(D) : RLe(RSub(m, Slack(m)), D[j])}
(* ---- k nearest neighbours: every valid selection of k samples ---- *)
Sub(S, n) == {T \in SUBSET S : Cardinality(T) = n}
Selections(X, k, q) ==
  LET D == [i \in 1..X.r |-> Dist2(X.d[i], q)]
      kk == IF k < X.r THEN k ELSE X.r
      dk == SortedR(D)[kk]
      sure == {i \in 1..X.r : RLt(D[i], RSub(dk, Slack(dk)))}
      edge == {i \in 1..X.r : RLe(RAbs(RSub(D[i], dk)), Slack(dk))}
  IN {sure \cup T : T \in Sub(edge, kk - Cardinality(sure))}
Votes(S, y, l) == Cardinality({i \in S : y[i] = l})
Majority(S, y) == LET L == {y[i] : i \in 1..Len(y)} IN {l \in L : \A o \in L : Votes(S, y, o) <= Votes(S, y, l)}
KnnLabels(X, y, k, q) == UNION {Majority(S, y) : S \in Selections(X, k, q)}
(* ---- k-means ---- *)
Near(mu, x) == NearMin([j \in 1..mu.r |-> Dist2(mu.d[j], x)])
RECURSIVE Assigns(_, _, _)
Assigns(mu, X, n) == IF n = 0 THEN {<<>>} ELSE {Append(f, j) : f \in Assigns(mu, X, n - 1), j \in Near(mu, X.d[n])}
Members(f, j) == SetToSeqI({i \in 1..Len(f) : f[i] = j})
MeanOf(X, ix, c) == RDiv(RSum([i \in 1..Len(ix) |-> X.d[ix[i]][c]]), Len(ix))
\* each mean becomes the average of its members; a mean without members stays
Means(mu, X, f) == [mu EXCEPT !.d = [j \in 1..mu.r |-> LET ix == Members(f, j) IN IF ix = <<>> THEN mu.d[j] ELSE [c \in 1..mu.c |-> MeanOf(X, ix, c)]]]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : TRUE IN <<m>> \o SetToSeq(S \ {m})
RECURSIVE Lloyd(_, _, _)
Lloyd(mus, X, n) == IF n = 0 THEN mus ELSE
  Lloyd(FlattenS([t \in 1..Len(mus) |-> LET fs == SetToSeq(Assigns(mus[t], X, X.r)) IN [i \in 1..Len(fs) |-> Means(mus[t], X, fs[i])]]), X, n - 1)
OneHot(r, j, k) == \A c \in 1..k : r[c] = (IF c = j THEN 1 ELSE 0)
ValidR(r, mu, X) == r.r = X.r /\ r.c = mu.r /\ \A i \in 1..X.r : \E j \in Near(mu, X.d[i]) : OneHot(r.d[i], j, mu.r)
Of(r, i) == CHOOSE j \in 1..r.c : r.d[i][j] = 1
KCost(mu, r, X) == RSum([i \in 1..X.r |-> Dist2(X.d[i], mu.d[Of(r, i)])])
Rows(X) == {i \in 1..X.r : TRUE}
IsRow(X, v) == \E i \in 1..X.r : SameX(X.d[i], v)
\* k-means++: after the first, each mean is a sample with the greatest total distance to the means before it
Far(X, mu, j) == LET D == [i \in 1..X.r |-> RSum([t \in 1..(j - 1) |-> Dist(X.d[i], mu.d[t])])] IN
  \E i \in NearMax(D) : SameX(X.d[i], mu.d[j])
InitMu(X, mu, k, type) ==
  /\ mu.r = k /\ mu.c = X.c /\ \A j \in 1..k : IsRow(X, mu.d[j])
  /\ type = "pp" => \A j \in 2..k : Far(X, mu, j)
MeanDist(X, i, ix) == RDiv(RSum([t \in 1..Len(ix) |-> Dist(X.d[i], X.d[ix[t]])]), Len(ix))
Silhouette(X, r, i) ==
  LET f == [t \in 1..X.r |-> Of(r, t)]
      own == SetToSeqI({t \in 1..X.r : f[t] = f[i] /\ t # i})
      oth == SetToSeqI({j \in 1..r.c : j # f[i] /\ Members(f, j) # <<>>})
      a == MeanDist(X, i, own)
      b == MinR([t \in 1..Len(oth) |-> MeanDist(X, i, Members(f, oth[t]))])
  IN IF own = <<>> THEN 0 ELSE RDiv(RSub(b, a), RMax(a, b))
(* ---- naive Bayes ---- *)
ClassRows(y, c) == SetToSeqI({i \in 1..Len(y) : y[i] = c})
Prior(y, c) == RDiv(Len(ClassRows(y, c)), Len(y))
Pooled(X, y, c) == FlattenS([t \in 1..Len(ClassRows(y, c)) |-> X.d[ClassRows(y, c)[t]]])
GaussFit(X, y, k) == [prior |-> [c \in 1..k |-> Prior(y, c - 1)], mu |-> [c \in 1..k |-> Mean(Pooled(X, y, c - 1))], sigma |-> [c \in 1..k |-> StdDev(Pooled(X, y, c - 1))]]
GaussScore(p, c, q) ==
  LET s2 == RSq(p.sigma[c]) IN
  RAdd(RLn(p.prior[c]), RSum([i \in 1..Len(q) |-> RSub(RFun("neg", RLn(RSqrt(RMul(RMul(2, RPi), s2)))), RDiv(RSq(RSub(q[i], p.mu[c])), RMul(2, s2)))]))
InVec(v, x) == \E i \in 1..Len(v) : REq(v[i], x)
Vocab(X) == LET all == FlattenS(X.d) IN LET ix == SetToSeqI({i \in 1..Len(all) : \A j \in 1..(i - 1) : ~REq(all[j], all[i])}) IN [t \in 1..Len(ix) |-> all[ix[t]]]
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN 1 ELSE RMul(Head(s), RProd(Tail(s)))
\* how often the word occurs in the class, per document of the class
Theta(X, y, c, w) == RDiv(Count(Pooled(X, y, c), w), Len(ClassRows(y, c)))
BernScore(X, y, c, q) == LET v == Vocab(X) IN
  RMul(Prior(y, c), RProd([t \in 1..Len(v) |-> IF InVec(q, v[t]) THEN Theta(X, y, c, v[t]) ELSE RSub(1, Theta(X, y, c, v[t]))]))
MultiScore(X, y, c, q) == LET v == Vocab(X) IN
  RMul(Prior(y, c), RProd([t \in 1..Len(q) |-> IF InVec(v, q[t]) THEN Theta(X, y, c, q[t]) ELSE 1]))
NbFit(kind, X, y, k) == IF kind = "gauss" THEN GaussFit(X, y, k) ELSE [prior |-> [c \in 1..k |-> Prior(y, c - 1)]]
NbScores(m, X, y, q) == [c \in 1..m.k |-> CASE m.kind = "gauss" -> GaussScore(GaussFit(X, y, m.k), c, q)
                                            [] m.kind = "bern" -> BernScore(X, y, c - 1, q)
                                            [] m.kind = "multi" -> MultiScore(X, y, c - 1, q)]
\* products of probabilities are compared relatively
BestOf(m, D) == IF m.kind = "gauss" THEN NearMax(D) ELSE LET x == MaxR(D) IN {j \in 1..Len(D) : RLe(RMul(x, R("0.999999999")), D[j])}
NbLabels(m, X, y, q) == {c - 1 : c \in BestOf(m, NbScores(m, X, y, q))}
(* ---- outliers: entries whose standard score exceeds the threshold ---- *)
ZScores(v) == LET mu == Mean(v) s == StdDev(v) IN [i \in 1..Len(v) |-> RDiv(RAbs(RSub(v[i], mu)), s)]
Flat(v) == Len(v) < 2 \/ \A i \in 1..Len(v) : REq(v[i], v[1])
Sure(v, t) == IF Flat(v) THEN {} ELSE LET z == ZScores(v) IN {i \in 1..Len(v) : RLt(RAdd(t, Slack(t)), z[i])}
Maybe(v, t) == IF Flat(v) THEN {} ELSE LET z == ZScores(v) IN {i \in 1..Len(v) : RLt(RSub(t, Slack(t)), z[i])} \ Sure(v, t)
OutIx(v, t) == {SetToSeqI(Sure(v, t) \cup M) : M \in SUBSET Maybe(v, t)}
Picks(v, ix) == [i \in 1..Len(ix) |-> v[ix[i]]]
IsOut(v, t, got) == \E ix \in OutIx(v, t) : SameX(Picks(v, ix), got)
RECURSIVE IxRows(_, _, _)
IxRows(X, t, n) == IF n = 0 THEN {<<>>} ELSE {a \o [i \in 1..Len(ix) |-> <<ix[i] - 1, n - 1>>] : a \in IxRows(X, t, n - 1), ix \in OutIx(X.d[n], t)}
(* ---- the least-squares line ---- *)
LineFit(x, y) == LET b1 == B1(x, y) IN [b1 |-> b1, b0 |-> RSub(Mean(y), RMul(b1, Mean(x)))]
Line(p, x) == RAdd(p.b0, RMul(p.b1, x))
=========================================================================
