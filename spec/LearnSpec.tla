----------------------------- MODULE LearnSpec -----------------------------
(* Traces of the single-layer learners.                                     *)
EXTENDS LearnOps
Optim == {"momentum", "nag", "adagrad", "adadelta", "adam", "adamax", "nadam"}
Trained(st, m, e) ==  \* the models a training call may produce
  LET A == st[m.X] y == st[m.y] f == e.a[2] lr == e.a[3] ep == e.a[4] bs == e.a[5] p == e.a[6] IN
  CASE m.kind = "dual" -> <<DualGD(m, A, y, lr, ep)>>
    [] f \in {"gd", "mle"} -> <<GD(m, A, y, lr, ep)>>
    [] f = "mbgd" -> <<MB(m, A, y, lr, ep, bs)>>
    [] f = "sgd" -> SGs(<<m>>, A, y, lr, ep)
    [] f \in Optim -> <<Opt(f, m, A, y, lr, bs, ep, p)>>
    [] f = "newton" -> <<Newton(m, A, y, lr, ep)>>
    [] f = "normal" -> <<Normal(m, A, y)>>
Tol == "1e-7"
Eq(a, b) == SameTol(a, b, Tol, Tol)
Rounded(x) == RFun("round", x)
Hits(h, y) == Cardinality({i \in 1..Len(h) : REq(Rounded(h[i]), y[i])})
HitRows(H, Y) == Cardinality({i \in 1..H.r : \A j \in 1..H.c : REq(Rounded(H.d[i][j]), Y.d[i][j])})
ScoreOf(st, m) == LET y == st[m.y] IN IF m.kind = "softmax" THEN RDiv(HitRows(m.yh, y), m.yh.r) ELSE RDiv(Hits(m.yh, y), Len(m.yh))
Others(st, e, k) == \A j \in DOMAIN st : j # k => SameX(st[j], e.s[j])
Model(a) == [kind |-> a[2], X |-> a[3], y |-> a[4], reg |-> a[5], lam |-> a[6], al |-> a[7], w |-> a[8], b |-> a[9], a |-> a[10], yh |-> "null"]
Init0(m) == [m EXCEPT !.w = 0, !.b = 0, !.a = 0, !.yh = 0]
InUnit(x) == RFinite(x)
LDone(st, e, want) == e.r = "ok" /\ Others(st, e, e.a[1]) /\ Eq(e.s[e.a[1]], want)
LConf(st, e) ==
  CASE e.op = "L.new" -> /\ e.r = "ok" /\ Eq(e.s[e.a[1]], Fresh(st, Model(e.a))) /\ Others(st, e, e.a[1])
    \* random initial parameters: the shape is determined
    [] e.op = "L.rand" ->
         LET m == e.s[e.a[1]] X == st[e.a[3]] IN
         /\ e.r = "ok" /\ Others(st, e, e.a[1])
         /\ CASE m.kind = "softmax" -> m.w.r = X.c /\ m.w.c = st[e.a[4]].c /\ Len(m.b) = m.w.c
              [] m.kind = "dual" -> Len(m.a) = X.r
              [] m.kind = "exp" -> Len(m.w) = X.c /\ Len(m.a) = X.c
              [] OTHER -> Len(m.w) = X.c
    [] e.op = "L.train" -> LET m == st[e.a[1]] IN
         LET ts == Trained(st, m, e) IN \E i \in 1..Len(ts) : LDone(st, e, Fresh(st, ts[i]))
    [] e.op = "L.sgdcov" ->
         \* single stochastic steps from the same model: each is the step of some sample and every sample is drawn
         LET m == st[e.a[1]] X == st[m.X] steps == [i \in 1..X.r |-> SG1(m, X, st[m.y], e.a[2], i)]
             Hit(i, q) == Eq([w |-> q.w, b |-> q.b, a |-> q.a], [w |-> steps[i].w, b |-> steps[i].b, a |-> steps[i].a]) IN
         /\ \A q \in 1..Len(e.r) : \E i \in 1..X.r : Hit(i, e.r[q])
         /\ \A i \in 1..X.r : \E q \in 1..Len(e.r) : Hit(i, e.r[q])
         /\ SameX(st, e.s)
    [] e.op = "L.test" -> LET m == st[e.a[1]] q == st[e.a[3]]
                              want == IF e.a[2] = "v" THEN Pred(st, m, q) ELSE PredS(st, m, q) IN
         Eq(e.r, want) /\ SameX(st, e.s)
    [] e.op = "L.score" -> Eq(e.r, ScoreOf(st, st[e.a[1]])) /\ SameX(st, e.s)
    [] e.op = "L.cost" -> Eq(e.r, CostOf(st[e.a[1]], e.a[2], e.a[3])) /\ SameX(st, e.s)
Expected(st, e) == CASE e.op \in {"M.new", "V.new"} -> MDo(st, e)
  [] e.op = "L.train" /\ e.a[2] # "sgd" -> Fresh(st, Trained(st, st[e.a[1]], e)[1])
  [] e.op = "L.new" -> Fresh(st, Model(e.a))
  [] e.op = "L.test" -> (IF e.a[2] = "v" THEN Pred(st, st[e.a[1]], st[e.a[3]]) ELSE PredS(st, st[e.a[1]], st[e.a[3]]))
  [] e.op = "L.cost" -> CostOf(st[e.a[1]], e.a[2], e.a[3])
  [] OTHER -> "a step of the specification"
Conforms(st, e) == IF e.op \in {"M.new", "V.new"} THEN LET o == MDo(st, e) IN Same(o.r, e.r) /\ Same(o.s, e.s) ELSE LConf(st, e)
After(st, e) == e.s
=========================================================================
