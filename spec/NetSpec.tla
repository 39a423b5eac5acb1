------------------------------ MODULE NetSpec ------------------------------
(* Traces of layers and networks.                                           *)
EXTENDS NetOps
Tol == "1e-7"
Eq(a, b) == SameTol(a, b, Tol, Tol)
Others(st, e, k) == \A j \in DOMAIN st : j # k => SameX(st[j], e.s[j])
\* event N.new <<slot, kind, X, y, hidden layers, output layer, schedule>>
Model(a) == [kind |-> a[2], X |-> a[3], y |-> a[4], ls |-> a[5], out |-> a[6], sch |-> a[7], yh |-> "null"]
Trained(st, m, e) ==
  LET A == st[m.X] Y == Ym(st, m) f == e.a[2] lr == e.a[3] ep == e.a[4] IN
  IF f = "sgd" THEN SGs(<<m>>, A, Y, lr, 1, Last(ep)) ELSE <<Run(f, m, A, Y, lr, ep, e.a[5], e.a[6])>>
Rounded(x) == RFun("round", x)
HitRows(H, Y) == Cardinality({i \in 1..H.r : \A j \in 1..H.c : REq(Rounded(H.d[i][j]), Y.d[i][j])})
ScoreOf(st, m) == RDiv(HitRows(m.yh, Ym(st, m)), m.yh.r)
(* ---- single layers: records [kind, X, n, set |-> initialised?, w, b, f, z, a, zt, at, reg, lam, al] ---- *)
Hasw(l) == [w |-> IF l.kind = "output" THEN ColM(l.w) ELSE l.w, b |-> IF l.kind = "output" THEN <<l.b>> ELSE l.b, f |-> l.f]
Fits(l, X) == IF l.kind = "output" THEN Len(l.w) = l.n[1] ELSE IF l.kind = "multi" THEN l.w.r = l.n[1] /\ l.w.c = l.n[2] /\ Len(l.b) = l.n[2]
              ELSE l.w.r = X.c /\ l.w.c = l.n[1] /\ Len(l.b) = l.n[1]
Sel(l, q) == IF l.kind = "output" THEN [i \in 1..q.r |-> q.d[i][1]] ELSE q
\* the parameters a pass uses: those set, or fresh ones of the declared shape
Kept(st, l, n) == IF l.set THEN SameX([w |-> l.w, b |-> l.b], [w |-> n.w, b |-> n.b]) ELSE Fits(n, st[l.X])
Passed(st, l, n) == LET p == Layer(Hasw(n), st[l.X]) IN
  /\ Kept(st, l, n) /\ n.set /\ Eq(n.z, Sel(l, p.z)) /\ Eq(n.a, Sel(l, p.a))
  /\ SameX([l EXCEPT !.set = TRUE, !.w = 0, !.b = 0, !.z = 0, !.a = 0], [n EXCEPT !.w = 0, !.b = 0, !.z = 0, !.a = 0])
Tested(st, l, n, q) == LET p == Layer(Hasw(n), [r |-> 1, c |-> Len(q), d |-> <<q>>])
                           S(x) == IF l.kind = "output" THEN x.d[1][1] ELSE x.d[1] IN
  /\ Kept(st, l, n) /\ n.set /\ Eq(n.zt, S(p.z)) /\ Eq(n.at, S(p.a))
  /\ SameX([l EXCEPT !.set = TRUE, !.w = 0, !.b = 0, !.zt = 0, !.at = 0], [n EXCEPT !.w = 0, !.b = 0, !.zt = 0, !.at = 0])
Created(st, l, a) == l.kind = a[2] /\ l.X = a[3] /\ l.n = a[4] /\ l.f = a[5] /\ l.reg = a[6] /\ SameX(<<l.lam, l.al>>, <<a[7], a[8]>>)
NConf(st, e) ==
  LET k == e.a[1] IN
  CASE e.op = "N.new" -> e.r = "ok" /\ Others(st, e, k) /\ Eq(e.s[k], Fresh(st, Model(e.a)))
    [] e.op = "N.train" -> LET m == st[k] ts == Trained(st, m, e) IN
         e.r = "ok" /\ Others(st, e, k) /\ \E i \in 1..Len(ts) : Eq(e.s[k], Fresh(st, ts[i]))
    [] e.op = "N.sgdcov" ->
         LET m == st[k] A == st[m.X] steps == [i \in 1..A.r |-> SG1(m, A, Ym(st, m), Rate(m, e.a[2], 1), i)]
             Hit(i, q) == Eq([ls |-> q.ls, out |-> q.out], [ls |-> steps[i].ls, out |-> steps[i].out]) IN
         /\ \A q \in 1..Len(e.r) : \E i \in 1..A.r : Hit(i, e.r[q])
         /\ \A i \in 1..A.r : \E q \in 1..Len(e.r) : Hit(i, e.r[q])
         /\ SameX(st, e.s)
    [] e.op = "N.test" -> LET m == st[k] q == st[e.a[3]] IN
         /\ SameX(st, e.s)
         /\ IF e.a[2] = "v" THEN LET p == Predict(m, [r |-> 1, c |-> Len(q), d |-> <<q>>]).d[1] IN Eq(e.r, IF m.kind \in Single THEN p[1] ELSE p)
            ELSE Eq(e.r, IF m.kind \in Single THEN Col(Predict(m, q), 1) ELSE Predict(m, q))
    [] e.op = "N.score" -> Eq(e.r, ScoreOf(st, st[k])) /\ SameX(st, e.s)
    [] e.op = "N.cost" -> Eq(e.r, CostOf(st[k], e.a[2], e.a[3])) /\ SameX(st, e.s)
    \* layers.  ctor: parameters are there at once; plain: at the first pass
    [] e.op = "N.layer" -> LET l == e.s[k] IN e.r = "ok" /\ Others(st, e, k) /\ Created(st, l, e.a) /\ l.set = (e.a[9] = "ctor") /\ (l.set => Fits(l, st[l.X]))
    [] e.op = "N.set" -> LET l == st[k] IN
         /\ e.r = "ok" /\ Others(st, e, k)
         /\ SameX(e.s[k], CASE e.a[2] = "X" -> [l EXCEPT !.X = e.a[3], !.set = l.set /\ (l.kind # "hidden" \/ st[e.a[3]].c = st[l.X].c)]
                            \* another shape or distribution: fresh parameters at the next pass
                            [] e.a[2] = "n" -> [l EXCEPT !.n = e.a[3], !.set = FALSE] [] e.a[2] = "W" -> [l EXCEPT !.set = FALSE]
                            [] e.a[2] = "f" -> [l EXCEPT !.f = e.a[3]] [] e.a[2] = "w" -> [l EXCEPT !.w = e.a[3]]
                            [] e.a[2] = "b" -> [l EXCEPT !.b = e.a[3]] [] e.a[2] = "lam" -> [l EXCEPT !.lam = e.a[3]] [] e.a[2] = "al" -> [l EXCEPT !.al = e.a[3]]
                            [] e.a[2] = "reg" -> [l EXCEPT !.reg = e.a[3]])
    [] e.op = "N.init" -> LET l == st[k] n == e.s[k] IN
         e.r = "ok" /\ Others(st, e, k) /\ Kept(st, l, n) /\ n.set /\ SameX([l EXCEPT !.set = TRUE, !.w = 0, !.b = 0], [n EXCEPT !.w = 0, !.b = 0])
    [] e.op = "N.forward" -> e.r = "ok" /\ Others(st, e, k) /\ Passed(st, st[k], e.s[k])
    [] e.op = "N.one" -> e.r = "ok" /\ Others(st, e, k) /\ Tested(st, st[k], e.s[k], st[e.a[2]])
Base == {"M.new", "V.new"}
Expected(st, e) == CASE e.op \in Base -> MDo(st, e)
  [] e.op = "N.train" /\ e.a[2] # "sgd" -> Fresh(st, Trained(st, st[e.a[1]], e)[1])
  [] e.op = "N.new" -> Fresh(st, Model(e.a))
  [] e.op = "N.test" /\ e.a[2] = "m" -> Predict(st[e.a[1]], st[e.a[3]])
  [] e.op = "N.cost" -> CostOf(st[e.a[1]], e.a[2], e.a[3])
  [] e.op = "N.forward" -> Layer(Hasw(e.s[e.a[1]]), st[st[e.a[1]].X])
  [] OTHER -> "a step of the specification"
Conforms(st, e) == IF e.op \in Base THEN LET o == MDo(st, e) IN Same(o.r, e.r) /\ Same(o.s, e.s) ELSE NConf(st, e)
After(st, e) == e.s
=========================================================================
