----------------------------- MODULE CostOps -----------------------------
(* The cost functions on flat sequences, their derivatives (of the sum   *)
(* over the samples, the library's convention), and regularisation.       *)
EXTENDS LinOps
Half(x) == RMul(R("0.5"), x)
Eps8 == R("1e-8")
CostF(f, h, y) ==
  LET n == Len(h) d == BinV("sub", h, y) IN
  CASE f = "mse" -> RDiv(NormSq(d), 2 * n)
    [] f = "rmse" -> RSqrt(RDiv(NormSq(d), n))
    [] f = "mae" -> Mean(MapS(RAbs, d))
    [] f = "mbe" -> Mean(d)
    [] f = "log_loss" -> RDiv(RSum([i \in 1..n |-> RNeg(RAdd(RMul(y[i], RLn(RAdd(h[i], Eps8))), RMul(RSub(1, y[i]), RLn(RAdd(RSub(1, h[i]), Eps8)))))]), n)
    [] f = "cross_entropy" -> RNeg(RSum([i \in 1..n |-> RMul(y[i], RLn(h[i]))]))
    [] f = "hinge_loss" -> Mean([i \in 1..n |-> RMax(0, RSub(1, RMul(y[i], h[i])))])
    [] f = "wasserstein_loss" -> RNeg(RDiv(RDot(h, y), n))
CostD(f, h, y) ==
  LET n == Len(h) d == BinV("sub", h, y) IN
  CASE f = "mse" -> d
    [] f = "rmse" -> ScaV("scalar_multiply", d, RInv(RMul(2, RSqrt(CostF("mse", h, y)))))
    [] f = "mae" -> MapS(RSign, d)
    [] f = "mbe" -> Full(n, 1)
    [] f = "log_loss" -> [i \in 1..n |-> RSub(RDiv(RSub(1, y[i]), RSub(1, h[i])), RDiv(y[i], h[i]))]
    [] f = "cross_entropy" -> [i \in 1..n |-> RNeg(RDiv(y[i], h[i]))]
    [] f = "hinge_loss" -> [i \in 1..n |-> IF RLt(RMul(y[i], h[i]), 1) THEN RNeg(y[i]) ELSE 0]
    [] f = "wasserstein_loss" -> MapS(RNeg, y)
Huber(h, y, delta) == RSum([i \in 1..Len(h) |-> LET d == RAbs(RSub(h[i], y[i])) IN IF RLe(d, delta) THEN RSq(d) ELSE RSub(RMul(RMul(2, delta), d), RSq(delta))])
HuberD(h, y, delta) == [i \in 1..Len(h) |-> LET d == RSub(h[i], y[i]) IN IF RLe(RAbs(d), delta) THEN RMul(2, d) ELSE RMul(RMul(2, delta), RSign(d))]
(* the dual of the support vector machine with a linear kernel *)
DualQ(X, y) == LET F(i, j) == RMul(RMul(y[i], y[j]), RDot(X.d[i], X.d[j])) IN Mk(X.r, X.r, F)
Dual(al, X, y) == RSub(Half(RDot(al, MulVec(DualQ(X, y), al))), RSum(al))
DualD(al, X, y) == [i \in 1..Len(al) |-> RSub(RDot(DualQ(X, y).d[i], al), 1)]

(* ---- regularisation ---- *)
RegTerm(w, t, lam, al) ==
  CASE t = "ridge" -> Half(RMul(lam, NormSq(w)))
    [] t = "lasso" -> RMul(lam, RSum(MapS(RAbs, w)))
    [] t = "elastic_net" -> RMul(lam, RAdd(RMul(al, RSum(MapS(RAbs, w))), Half(RMul(RSub(1, al), NormSq(w)))))
    [] OTHER -> 0
RegDeriv1(x, t, lam, al) ==
  CASE t = "ridge" -> RMul(lam, x)
    [] t = "lasso" -> RMul(lam, RSign(x))
    [] t = "elastic_net" -> RAdd(RMul(RMul(al, lam), RSign(x)), RMul(RMul(RSub(1, al), lam), x))
    \* lambda and alpha are the ends of the clipping interval
    [] t = "clip" -> RMin(al, RMax(lam, x))
    [] OTHER -> 0
RegDeriv(w, t, lam, al) == [i \in 1..Len(w) |-> RegDeriv1(w[i], t, lam, al)]
RegW1(x, t, lam, al) == IF t = "clip" THEN RegDeriv1(x, t, lam, al) ELSE RSub(x, RegDeriv1(x, t, lam, al))
RegW(w, t, lam, al) == [i \in 1..Len(w) |-> RegW1(w[i], t, lam, al)]
RegWM(A, t, lam, al) == LET F(x) == RegW1(x, t, lam, al) IN MapM(F, A)
RegDerivM(A, t, lam, al) == LET F(x) == RegDeriv1(x, t, lam, al) IN MapM(F, A)

Shape(A, v) == [A EXCEPT !.d = [i \in 1..A.r |-> [j \in 1..A.c |-> v[(i - 1) * A.c + j]]]]
(* event C <<via, function, derivative?, "v"|"m", prediction, label, destination, extra>> *)
CDo(st, e) ==
  LET via == e.a[1] f == e.a[2] k == e.a[4] H == st[e.a[5]] Y == st[e.a[6]] d == e.a[7] p == e.a[8]
      h == IF k = "v" THEN H ELSE FlatM(H) y == IF k = "v" THEN Y ELSE FlatM(Y)
      ok == IF k = "v" THEN Len(H) = Len(Y) ELSE SameSize(H, Y)
      Val(x) == Out(st, IF ok THEN x ELSE 0)
      Der(x) == IF ok THEN Out(Put(st, d, IF k = "v" THEN x ELSE Shape(H, x)), "ok") ELSE Out(st, "null")
  IN CASE f = "huber_loss" -> IF e.a[3] THEN Der(HuberD(h, y, p)) ELSE Val(Huber(h, y, p))
       [] f = "hinge_lossw" -> IF e.a[3] THEN Der(ScaV("scalar_multiply", CostD("hinge_loss", h, y), p))
                               ELSE Out(st, RAdd(RMul(p, IF ok THEN CostF("hinge_loss", h, y) ELSE 0), LET w == st[d] IN Half(NormSq(IF k = "v" THEN w ELSE FlatM(w)))))
       [] OTHER -> IF e.a[3] THEN Der(CostD(f, h, y)) ELSE Val(CostF(f, h, y))
(* event C.dual <<alpha, X, y, destination or "">> *)
DualDo(st, e) == LET a == e.a IN IF a[4] = "" THEN Out(st, Dual(st[a[1]], st[a[2]], st[a[3]])) ELSE Out(Put(st, a[4], DualD(st[a[1]], st[a[2]], st[a[3]])), "ok")
(* event G <<"term"|"deriv"|"weights", "v"|"m", weights, type, lambda, alpha, destination>> *)
GDo(st, e) ==
  LET a == e.a w == st[a[3]] v == IF a[2] = "v" THEN w ELSE FlatM(w)
      P(x) == Out(Put(st, a[7], IF a[2] = "v" THEN x ELSE Shape(w, x)), "ok") IN
  CASE a[1] = "term" -> Out(st, RegTerm(v, a[4], a[5], a[6]))
    [] a[1] = "deriv" -> P(RegDeriv(v, a[4], a[5], a[6]))
    [] a[1] = "weights" -> P(RegW(v, a[4], a[5], a[6]))
=========================================================================
