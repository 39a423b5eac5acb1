----------------------------- MODULE LearnOps -----------------------------
(* The single-layer learners.  A model is a record                         *)
(*   [kind, X, y |-> slots of its data, reg, lam, al |-> regularisation,   *)
(*    w |-> weights, b |-> bias, a |-> initial values (exponential) or     *)
(*    multipliers (dual), yh |-> stored predictions].                      *)
(* Training is the epoch-wise transition relation defined here.            *)
EXTENDS ActOps, CostOps
Ones(n) == Full(n, 1)
Glm == {"lin", "log", "probit", "cloglog", "tanh", "svc"}
LinkOf == [lin |-> "linear", log |-> "sigmoid", probit |-> "gaussian_cdf", cloglog |-> "cloglog", tanh |-> "tanh", svc |-> "sign"]
RowsM(A) == A.d
(* ---- prediction ---- *)
Zof(m, x) == RAdd(RDot(m.w, x), m.b)
DualZ(m, x, X, y) == RAdd(RSum([j \in 1..Len(m.a) |-> RMul(RMul(m.a[j], y[j]), RDot(X.d[j], x))]), m.b)
ExpZ(m, x) == RAdd(RSum([j \in 1..Len(x) |-> RMul(m.a[j], RPow(m.w[j], x[j]))]), m.b)
SoftZ(m, x) == [c \in 1..m.w.c |-> RAdd(m.b[c], RDot(Col(m.w, c), x))]
Pred(st, m, x) ==
  CASE m.kind \in Glm -> Act(LinkOf[m.kind], Zof(m, x))
    [] m.kind = "exp" -> ExpZ(m, x)
    [] m.kind = "softmax" -> Softmax(SoftZ(m, x))
    [] m.kind = "dual" -> RSign(DualZ(m, x, st[m.X], st[m.y]))
PredS(st, m, A) == LET p == [i \in 1..A.r |-> Pred(st, m, A.d[i])] IN
  IF m.kind = "softmax" THEN [r |-> A.r, c |-> m.w.c, d |-> p] ELSE p
Fresh(st, m) == [m EXCEPT !.yh = PredS(st, m, st[m.X])]
(* ---- one step on the rows A with labels y ---- *)
Take(m, A, y, ix) == [A |-> [r |-> Len(ix), c |-> A.c, d |-> [i \in 1..Len(ix) |-> A.d[ix[i]]]],
                   y |-> IF m.kind = "softmax" THEN [r |-> Len(ix), c |-> y.c, d |-> [i \in 1..Len(ix) |-> y.d[ix[i]]]] ELSE [i \in 1..Len(ix) |-> y[ix[i]]]]
(* the derivative of each sample's loss by its decision value *)
Residual(m, z, y) ==
  LET h == [i \in 1..Len(z) |-> Act(LinkOf[m.kind], z[i])] d(i) == RSub(h[i], y[i]) IN
  CASE m.kind \in {"lin", "log"} -> [i \in 1..Len(z) |-> d(i)]
    [] m.kind \in {"probit", "cloglog"} -> [i \in 1..Len(z) |-> RMul(d(i), ActD(LinkOf[m.kind], z[i]))]
    [] m.kind = "tanh" -> [i \in 1..Len(z) |-> RMul(d(i), RSub(1, RSq(h[i])))]
    [] m.kind = "svc" -> ScaV("scalar_multiply", CostD("hinge_loss", z, y), m.al)
GlmGrad(m, A, y) == LET g == Residual(m, [i \in 1..A.r |-> Zof(m, A.d[i])], y) IN [w |-> MulVec(Transpose(A), g), b |-> RSum(g)]
(* the support vector classifier's penalty is |w|^2/2, stepped by the rate *)
RegOf(m, w, rate) == IF m.kind = "svc" THEN RegW(w, "ridge", rate, 0) ELSE RegW(w, m.reg, m.lam, m.al)
StepGlm(m, A, y, lr, n) ==
  LET g == GlmGrad(m, A, y) rate == RDiv(lr, n) IN
  [m EXCEPT !.w = RegOf(m, BinV("sub", m.w, ScaV("scalar_multiply", g.w, rate)), rate), !.b = RSub(m.b, RDiv(RMul(lr, g.b), n))]
StepExp(m, A, y, lr, n) ==
  LET e == [i \in 1..A.r |-> RSub(ExpZ(m, A.d[i]), y[i])]
      gw(j) == RDiv(RMul(m.a[j], RSum([i \in 1..A.r |-> RMul(RMul(e[i], A.d[i][j]), RPow(m.w[j], RSub(A.d[i][j], 1)))])), n)
      ga(j) == RDiv(RSum([i \in 1..A.r |-> RMul(e[i], RPow(m.w[j], A.d[i][j]))]), n)
  IN [m EXCEPT !.w = RegW([j \in 1..Len(m.w) |-> RSub(m.w[j], RMul(lr, gw(j)))], m.reg, m.lam, m.al),
               !.a = [j \in 1..Len(m.w) |-> RSub(m.a[j], RMul(lr, ga(j)))],
               !.b = RSub(m.b, RDiv(RMul(lr, RSum(e)), n))]
StepSoft(m, A, Y, lr) ==
  LET h == [i \in 1..A.r |-> Softmax(SoftZ(m, A.d[i]))]
      E(i, c) == RSub(h[i][c], Y.d[i][c]) Er == Mk(A.r, Y.c, E)
      S(x) == RMul(x, lr)
  IN [m EXCEPT !.w = RegWM(BinM("sub", m.w, MapM(S, Mult(Transpose(A), Er))), m.reg, m.lam, m.al),
               !.b = [c \in 1..Len(m.b) |-> RSub(m.b[c], RMul(lr, RSum(Col(Er, c))))]]
Step1(m, A, y, lr, n) == CASE m.kind = "exp" -> StepExp(m, A, y, lr, n) [] m.kind = "softmax" -> StepSoft(m, A, y, lr) [] OTHER -> StepGlm(m, A, y, lr, n)

(* the dual form: gradient step, projection into the box, bias step on the first sample *)
Box(x, C) == IF RLt(C, x) THEN C ELSE IF RLt(x, 0) THEN 0 ELSE x
StepDual(m, A, y, lr) ==
  LET a2 == [i \in 1..Len(m.a) |-> Box(RSub(m.a[i], RMul(DualD(m.a, A, y)[i], lr)), m.al)]
      free == RLt(a2[1], m.al) /\ RLt(0, a2[1])
      s == IF free THEN RSum([j \in 1..Len(a2) |-> RMul(RMul(a2[j], y[j]), RDot(A.d[j], A.d[1]))]) ELSE 0
  IN [m EXCEPT !.a = a2, !.b = RSub(m.b, RMul(RDiv(RSub(1, RMul(y[1], s)), y[1]), lr))]

(* ---- runs of epochs ---- *)
RECURSIVE Iter(_, _, _)
Iter(F(_), n, m) == IF n = 0 THEN m ELSE Iter(F, n - 1, F(m))
(* an epoch over the consecutive mini-batches; total |-> whether the rate  *)
(* is scaled by the whole set instead of the batch                         *)
TotalScaled == {"cloglog", "tanh", "svc"}
BatchIx(n, size) == LET k == n \div size s == n \div k IN [b \in 1..k |-> [i \in 1..s |-> (b - 1) * s + i]]
RECURSIVE OverBatches(_, _, _, _, _, _)
OverBatches(m, A, y, lr, ix, n) == IF ix = <<>> THEN m ELSE
  LET t == Take(m, A, y, Head(ix)) IN OverBatches(Step1(m, t.A, t.y, lr, IF m.kind \in TotalScaled THEN n ELSE t.A.r), A, y, lr, Tail(ix), n)
GD(m, A, y, lr, ep) == LET F(q) == Step1(q, A, y, lr, A.r) IN Iter(F, ep, m)
MB(m, A, y, lr, ep, size) == LET F(q) == OverBatches(q, A, y, lr, BatchIx(A.r, size), A.r) IN Iter(F, ep, m)
SG1(m, A, y, lr, i) == LET t == Take(m, A, y, <<i>>) IN Step1(m, t.A, t.y, lr, 1)
(* the models reachable by ep stochastic steps, as a sequence *)
RECURSIVE SGs(_, _, _, _, _)
SGs(S, A, y, lr, ep) == IF ep = 0 THEN S ELSE SGs(FlattenS([q \in 1..Len(S) |-> [i \in 1..A.r |-> SG1(S[q], A, y, lr, i)]]), A, y, lr, ep - 1)
DualGD(m, A, y, lr, ep) == LET F(q) == StepDual(q, A, y, lr) IN Iter(F, ep, m)

(* ---- the optimisers of the linear regression: p |-> parameters ---- *)
Grad(m, t) == LET g == GlmGrad(m, t.A, t.y) IN BinV("add", ScaV("scalar_multiply", g.w, RInv(t.A.r)), RegDeriv(m.w, m.reg, m.lam, m.al))
BiasStep(m, b, t, lr) == RSub(b, RDiv(RMul(lr, GlmGrad(m, t.A, t.y).b), t.A.r))
Ema(x, g, b) == [i \in 1..Len(x) |-> RAdd(RMul(x[i], b), RMul(g[i], RSub(1, b)))]
Corr(x, b, ep) == ScaV("scalar_multiply", x, RInv(RSub(1, RPow(b, ep))))
Sqr(g) == MapS(RSq, g)
(* o |-> [m |-> model, v, u |-> moments]; one mini-batch of epoch ep *)
Opt1(f, o, t, lr, ep, p) ==
  LET m == o.m n == Len(m.w)
      look == IF f = "nag" THEN [m EXCEPT !.w = [i \in 1..n |-> RSub(m.w[i], RMul(o.v[i], p[1]))]] ELSE m
      g == Grad(look, t)
      v2 == CASE f \in {"momentum", "nag"} -> [i \in 1..n |-> RAdd(RMul(o.v[i], p[1]), RMul(g[i], lr))]
              [] f = "adagrad" -> BinV("add", o.v, Sqr(g))
              [] f = "adadelta" -> Ema(o.v, Sqr(g), p[1])
              [] f \in {"adam", "adamax", "nadam"} -> Ema(o.v, g, p[1])
      u2 == CASE f \in {"adam", "nadam"} -> Ema(o.u, Sqr(g), p[2])
              [] f = "adamax" -> [i \in 1..n |-> RMax(RMul(o.u[i], p[2]), RAbs(g[i]))]
              [] OTHER -> o.u
      mh == Corr(v2, p[1], ep)
      uh == Corr(u2, p[2], ep)
      nm(i) == RAdd(RMul(v2[i], p[1]), RMul(g[i], RDiv(RSub(1, p[1]), RSub(1, RPow(p[1], ep)))))
      dw == CASE f \in {"momentum", "nag"} -> v2
              [] f \in {"adagrad", "adadelta"} -> LET e == p[Len(p)] IN [i \in 1..n |-> RMul(RDiv(g[i], RSqrt(RAdd(v2[i], e))), lr)]
              [] f = "adam" -> [i \in 1..n |-> RMul(RDiv(mh[i], RAdd(RSqrt(uh[i]), p[3])), lr)]
              [] f = "adamax" -> [i \in 1..n |-> RMul(RDiv(mh[i], u2[i]), lr)]
              [] f = "nadam" -> [i \in 1..n |-> RMul(RDiv(nm(i), RAdd(RSqrt(uh[i]), p[3])), lr)]
  IN [m |-> [look EXCEPT !.w = BinV("sub", look.w, dw), !.b = BiasStep(look, m.b, t, lr)], v |-> v2, u |-> u2]
RECURSIVE OptB(_, _, _, _, _, _, _, _)
OptB(f, o, A, y, lr, ix, ep, p) == IF ix = <<>> THEN o ELSE OptB(f, Opt1(f, o, Take(o.m, A, y, Head(ix)), lr, ep, p), A, y, lr, Tail(ix), ep, p)
RECURSIVE OptE(_, _, _, _, _, _, _, _, _)
OptE(f, o, A, y, lr, size, ep, last, p) == IF ep > last THEN o.m ELSE OptE(f, OptB(f, o, A, y, lr, BatchIx(A.r, size), ep, p), A, y, lr, size, ep + 1, last, p)
Opt(f, m, A, y, lr, size, eps, p) == LET z == Full(Len(m.w), 0) IN OptE(f, [m |-> m, v |-> z, u |-> z], A, y, lr, size, 1, eps, p)
(* the second-order methods *)
Newton1(m, A, y, lr) ==
  LET g == GlmGrad(m, A, y) H == InverseM(Mult(Transpose(A), A)) IN
  [m EXCEPT !.w = RegW(BinV("sub", m.w, ScaV("scalar_multiply", MulVec(Transpose(H), g.w), RDiv(lr, A.r))), m.reg, m.lam, m.al),
            !.b = RSub(m.b, RDiv(RMul(lr, g.b), A.r))]
Newton(m, A, y, lr, ep) == LET F(q) == Newton1(q, A, y, lr) IN Iter(F, ep, m)
Normal(m, A, y) ==
  LET I_ == Identity(A.c) L(x) == RMul(x, m.lam)
      G == Mult(Transpose(A), A) Gr == IF m.reg = "ridge" THEN BinM("add", G, MapM(L, I_)) ELSE G
      w == MulVec(InverseM(Gr), MulVec(Transpose(A), y)) IN
  [m EXCEPT !.w = w, !.b = RSub(Mean(y), RDot(w, [j \in 1..A.c |-> Mean(Col(A, j))]))]

(* ---- the cost shown to the user ---- *)
CostName == [lin |-> "mse", log |-> "log_loss", probit |-> "mse", cloglog |-> "mse", tanh |-> "mse", exp |-> "mse", softmax |-> "cross_entropy"]
CostOf(m, h, y) ==
  IF m.kind = "svc" THEN RAdd(RMul(m.al, CostF("hinge_loss", h, y)), Half(NormSq(m.w)))
  ELSE IF m.kind = "softmax" THEN RAdd(CostF("cross_entropy", FlatM(h), FlatM(y)), RegTerm(FlatM(m.w), m.reg, m.lam, m.al))
  ELSE RAdd(CostF(CostName[m.kind], h, y), RegTerm(m.w, m.reg, m.lam, m.al))
=========================================================================
