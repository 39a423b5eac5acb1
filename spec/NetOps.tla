------------------------------ MODULE NetOps ------------------------------
(* The layered networks.  A model is a record                              *)
(*   [kind, X, y |-> slots, ls |-> hidden layers, out |-> output layer,    *)
(*    sch |-> [t, d, drop], yh |-> stored predictions],                    *)
(* a layer [w, b, f, cost, reg, lam, al].  Single outputs are one column.  *)
EXTENDS ActOps, CostOps
ColM(v) == [r |-> Len(v), c |-> 1, d |-> [i \in 1..Len(v) |-> <<v[i]>>]]
Single == {"ann", "mlp"}
Ym(st, m) == IF m.kind \in Single THEN ColM(st[m.y]) ELSE st[m.y]
RowsOf(A, ix) == [r |-> Len(ix), c |-> A.c, d |-> [i \in 1..Len(ix) |-> A.d[ix[i]]]]
BatchIx(n, size) == LET k == n \div size s == n \div k IN [b \in 1..k |-> [i \in 1..s |-> (b - 1) * s + i]]
Plus(A, b) == Strict([A EXCEPT !.d = [i \in 1..A.r |-> [j \in 1..A.c |-> RAdd(A.d[i][j], b[j])]]])
Hada(A, B) == LET F(i, j) == RMul(A.d[i][j], B.d[i][j]) IN Mk(A.r, A.c, F)
Scl(A, s) == LET F(x) == RMul(x, s) IN MapM(F, A)
ColSum(A) == Strict([j \in 1..A.c |-> RSum(Col(A, j))])
(* ---- one layer ---- *)
Zm(l, A) == Plus(Mult(A, l.w), l.b)
Layer(l, A) == LET z == Zm(l, A) IN Strict([x |-> A, z |-> z, a |-> ActM(l.f, FALSE, z)])
(* ---- composition: the passes of every hidden layer and of the output ---- *)
RECURSIVE Passes(_, _)
Passes(ls, A) == IF ls = <<>> THEN <<>> ELSE LET p == Layer(Head(ls), A) IN <<p>> \o Passes(Tail(ls), p.a)
All(m) == Append(m.ls, m.out)
Predict(m, A) == LET p == Passes(All(m), A) IN p[Len(p)].a
Fresh(st, m) == [m EXCEPT !.yh = Predict(m, st[m.X])]
(* ---- back-propagation: deltas of every layer, the output's last ---- *)
DeltaOut(m, p, Y) ==
  IF m.kind \in {"ann", "mann"} /\ m.out.f # "softmax"
  THEN Hada(Shape(Y, CostD(m.out.cost, FlatM(p.a), FlatM(Y))), ActM(m.out.f, TRUE, p.z))
  ELSE BinM("sub", p.a, Y)
RECURSIVE Back(_, _, _, _)
Back(L, P, i, ds) == IF i = 0 THEN ds ELSE
  Back(L, P, i - 1, <<Hada(Mult(Head(ds), Transpose(L[i + 1].w)), ActM(L[i].f, TRUE, P[i].z))>> \o ds)
Deltas(m, A, Y) == LET L == All(m) P == Strict(Passes(L, A)) n == Len(L) IN [p |-> P, d |-> Strict(Back(L, P, n - 1, <<Strict(DeltaOut(m, P[n], Y))>>))]
Grads(m, A, Y) ==
  LET D == Deltas(m, A, Y) IN Strict([i \in 1..Len(D.d) |-> [w |-> Mult(Transpose(D.p[i].x), D.d[i]), b |-> ColSum(D.d[i])]])
(* replace the parameters of all layers *)
SetAll(m, L) == [m EXCEPT !.ls = SubSeq(L, 1, Len(L) - 1), !.out = L[Len(L)]]
(* ---- plain steps.  n |-> size of the training set ---- *)
RegW2(l) == RegWM(l.w, l.reg, l.lam, l.al)
NetStep(m, A, Y, lr, n) ==
  LET G == Grads(m, A, Y) L == All(m)
      rate == CASE m.kind \in {"ann", "mann"} -> RDiv(lr, n) [] m.kind = "snet" -> lr [] OTHER -> RDiv(lr, A.r)
      \* the decoder bias of the auto-encoder is stepped by the unscaled rate
      brate(i) == IF m.kind = "ae" /\ i = Len(L) THEN lr ELSE rate
      One(i) ==
        LET l == L[i]
            g == IF m.kind = "ann" THEN BinM("add", G[i].w, RegDerivM(l.w, l.reg, l.lam, l.al)) ELSE G[i].w
            w == BinM("sub", l.w, Scl(g, rate))
        IN [l EXCEPT !.w = IF m.kind = "ann" THEN w ELSE RegWM(w, l.reg, l.lam, l.al),
                     !.b = [j \in 1..Len(l.b) |-> RSub(l.b[j], RMul(brate(i), G[i].b[j]))]]
  IN Strict(SetAll(m, [i \in 1..Len(L) |-> One(i)]))
(* the learning rate of an epoch *)
Rate(m, lr, ep) ==
  LET s == m.sch IN
  CASE s.t = "time" -> RDiv(lr, RAdd(1, RMul(s.d, ep)))
    [] s.t = "epoch" -> RMul(lr, RDiv(s.d, RSqrt(ep)))
    [] s.t = "step" -> RMul(lr, RPow(s.d, RTrunc(RDiv(1 + ep, s.drop))))
    [] s.t = "exponential" -> RMul(lr, RExp(RNeg(RMul(s.d, ep))))
    [] OTHER -> lr
(* ---- the adaptive optimisers, per weight tensor ---- *)
\* s |-> one tensor's state [w, v, u, x] as flat sequences, g its gradient, lr already divided by the set's size
Upd(f, s, g, lr, ep, p) ==
  LET n == Len(g) Q == MapS(RSq, g)
      Mix(a, b, c) == [i \in 1..n |-> RAdd(RMul(a[i], c), RMul(b[i], RSub(1, c)))]
      Div(a, b, e) == [i \in 1..n |-> RMul(RDiv(a[i], RAdd(b[i], e)), lr)]
      Rt(a) == MapS(RSqrt, a)
      hat(a, c) == ScaV("scalar_multiply", a, RInv(RSub(1, RPow(c, ep))))
      Less(w, d) == BinV("sub", w, d)
      v2 == CASE f \in {"momentum", "nag"} -> [i \in 1..n |-> RAdd(RMul(s.v[i], p[1]), RMul(g[i], lr))]
              [] f = "adagrad" -> BinV("add", s.v, Q)
              [] f = "adadelta" -> Mix(Q, s.v, p[1])
              [] OTHER -> Mix(s.v, g, p[1])
      u2 == CASE f \in {"adam", "nadam", "amsgrad"} -> Mix(s.u, Q, p[2])
              [] f = "adamax" -> [i \in 1..n |-> RMax(RMul(s.u[i], p[2]), RAbs(g[i]))]
              [] OTHER -> s.u
      x2 == IF f = "amsgrad" THEN [i \in 1..n |-> RMax(s.x[i], u2[i])] ELSE s.x
      fin(i) == RAdd(RMul(hat(v2, p[1])[i], p[1]), RMul(g[i], RDiv(RSub(1, p[1]), RSub(1, RPow(p[1], ep)))))
      w2 == CASE f = "momentum" -> Less(s.w, v2)
              [] f = "nag" -> Less(Less(s.w, s.v), v2)
              [] f \in {"adagrad", "adadelta"} -> Less(s.w, Div(g, Rt(v2), p[Len(p)]))
              [] f = "adam" -> Less(s.w, Div(hat(v2, p[1]), Rt(hat(u2, p[2])), p[3]))
              [] f = "adamax" -> Less(s.w, Div(hat(v2, p[1]), u2, p[3]))
              [] f = "nadam" -> Less(s.w, Div([i \in 1..n |-> fin(i)], Rt(hat(u2, p[2])), p[3]))
              [] f = "amsgrad" -> Less(s.w, Div(v2, Rt(x2), p[3]))
  IN Strict([w |-> w2, v |-> v2, u |-> u2, x |-> x2])
Zeros(m) == LET L == All(m) IN [i \in 1..Len(L) |-> [w |-> <<>>, v |-> Full(L[i].w.r * L[i].w.c, 0), u |-> Full(L[i].w.r * L[i].w.c, 0), x |-> Full(L[i].w.r * L[i].w.c, 0)]]
\* o |-> [m |-> model, t |-> tensors' states]
Opt1(f, o, A, Y, lr, ep, p, n) ==
  LET m == o.m L == All(m) G == Grads(m, A, Y) rate == RDiv(lr, n)
      T == Strict([i \in 1..Len(L) |-> LET l == L[i] IN
        Upd(f, [o.t[i] EXCEPT !.w = FlatM(l.w)], FlatM(BinM("add", G[i].w, RegDerivM(l.w, l.reg, l.lam, l.al))), rate, ep, p)])
      New(i) == [L[i] EXCEPT !.w = Shape(@, T[i].w), !.b = [j \in 1..Len(@) |-> RSub(@[j], RMul(rate, G[i].b[j]))]]
  IN Strict([m |-> SetAll(m, [i \in 1..Len(L) |-> New(i)]), t |-> T])
Adaptive == {"momentum", "nag", "adagrad", "adadelta", "adam", "adamax", "nadam", "amsgrad"}
RECURSIVE Batches(_, _, _, _, _, _, _, _)
Batches(f, o, A, Y, lr, ep, p, ix) == IF ix = <<>> THEN o ELSE
  LET a == RowsOf(A, Head(ix)) y == RowsOf(Y, Head(ix)) IN
  Batches(f, IF f \in Adaptive THEN Opt1(f, o, a, y, lr, ep, p, A.r) ELSE [o EXCEPT !.m = NetStep(o.m, a, y, lr, A.r)], A, Y, lr, ep, p, Tail(ix))
RECURSIVE Epochs(_, _, _, _, _, _, _, _, _)
Epochs(f, o, A, Y, lr, ep, last, p, ix) == IF ep > last THEN o.m ELSE
  Epochs(f, Batches(f, o, A, Y, Rate(o.m, lr, ep), ep, p, ix), A, Y, lr, ep + 1, last, p, ix)
Whole(n) == << [i \in 1..n |-> i] >>
Last(ep) == IF ep < 1 THEN 1 ELSE ep
Run(f, m, A, Y, lr, eps, size, p) == Epochs(f, [m |-> m, t |-> Zeros(m)], A, Y, lr, 1, Last(eps), p, IF f = "gd" THEN Whole(A.r) ELSE BatchIx(A.r, size))
(* stochastic descent: every sequence of samples *)
SG1(m, A, Y, lr, i) == NetStep(m, RowsOf(A, <<i>>), RowsOf(Y, <<i>>), lr, A.r)
RECURSIVE SGs(_, _, _, _, _, _)
SGs(S, A, Y, lr, ep, last) == IF ep > last THEN S ELSE
  SGs(FlattenS([q \in 1..Len(S) |-> [i \in 1..A.r |-> SG1(S[q], A, Y, Rate(S[q], lr, ep), i)]]), A, Y, lr, ep + 1, last)
(* ---- the cost shown to the user ---- *)
RegCost(l) == RegTerm(FlatM(l.w), l.reg, l.lam, l.al)
CostOf(m, h, y) == RAdd(CostF(m.out.cost, FlatM(h), FlatM(y)), RSum([i \in 1..Len(All(m)) |-> RegCost(All(m)[i])]))
=========================================================================
