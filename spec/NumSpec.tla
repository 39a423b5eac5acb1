----------------------------- MODULE NumSpec -----------------------------
(* MLPPNumericalAnalysis and MLPPTransforms.  The functions handed to the *)
(* library are polynomials around a centre,                               *)
(*   [c |-> centre, t |-> <<[k |-> coefficient, e |-> exponents], ...>>], *)
(* so that every derivative is known in closed form.  Event               *)
(* N <<function, destination, precision, polynomial, arguments...>>.      *)
EXTENDS LinOps
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE RMul(x, Pow(x, n - 1))
RECURSIVE Prod(_)
Prod(v) == IF v = <<>> THEN 1 ELSE RMul(Head(v), Prod(Tail(v)))
Eval(p, x) == RSum([i \in 1..Len(p.t) |-> RMul(p.t[i].k, Prod([j \in 1..Len(p.c) |-> Pow(RSub(x[j], p.c[j]), p.t[i].e[j])]))])
(* partial derivative along axis ax (1-based) *)
D(p, ax) == [c |-> p.c, t |-> LET live == SelectSeq(p.t, LAMBDA m : m.e[ax] > 0) IN
             [i \in 1..Len(live) |-> [k |-> RMul(live[i].k, live[i].e[ax]), e |-> [live[i].e EXCEPT ![ax] = live[i].e[ax] - 1]]]]
Grad(p, x) == [i \in 1..Len(x) |-> Eval(D(p, i), x)]
Hess(p, x) == LET F(i, j) == Eval(D(D(p, i), j), x) IN Mk(Len(x), Len(x), F)
Third(p, x) == LET n == Len(x) IN [x |-> n, y |-> n, z |-> n, d |-> [i \in 1..n |-> [j \in 1..n |-> [k \in 1..n |-> Eval(D(D(D(p, i), j), k), x)]]]]
(* Taylor polynomials of f about c, at x *)
SubS(x, y) == [i \in 1..Len(x) |-> RSub(x[i], y[i])]
Taylor0(p, c, x) == Eval(p, c)
Taylor1(p, c, x) == RAdd(Taylor0(p, c, x), RDot(Grad(p, c), SubS(x, c)))
Taylor2(p, c, x) == LET h == SubS(x, c) IN RAdd(Taylor1(p, c, x), RDiv(RDot(h, MulVec(Hess(p, c), h)), 2))
Taylor3(p, c, x) == LET h == SubS(x, c) T_ == Third(p, c) n == Len(x) IN
  RAdd(Taylor2(p, c, x), RDiv(RSum([i \in 1..n |-> RMul(h[i], RSum([j \in 1..n |-> RMul(h[j], RDot(T_.d[i][j], h))]))]), 6))
(* one-dimensional functions *)
F1(p, x) == Eval(p, <<x>>)
D1(p, x) == Eval(D(p, 1), <<x>>)
D2(p, x) == Eval(D(D(p, 1), 1), <<x>>)
D3(p, x) == Eval(D(D(D(p, 1), 1), 1), <<x>>)
RECURSIVE Newton(_, _, _)
Newton(p, x, n) == IF n = 0 THEN x ELSE Newton(p, RSub(x, RDiv(F1(p, x), D1(p, x))), n - 1)
RECURSIVE Halley(_, _, _)
Halley(p, x, n) == IF n = 0 THEN x ELSE
  LET f == F1(p, x) f1 == D1(p, x) f2 == D2(p, x) IN
  Halley(p, RSub(x, RDiv(RMul(2, RMul(f, f1)), RSub(RMul(2, RSq(f1)), RMul(f, f2)))), n - 1)
(* Lagrange interpolation of the inverse function at 0 *)
InvQuad(p, x) == LET f == [i \in 1..3 |-> F1(p, x[i])]
                     L(i, j, k) == RMul(RDiv(RMul(f[j], f[k]), RMul(RSub(f[i], f[j]), RSub(f[i], f[k]))), x[i])
                 IN RAdd(L(1, 2, 3), RAdd(L(2, 1, 3), L(3, 1, 2)))
RECURSIVE InvQuadN(_, _, _, _)
InvQuadN(p, x, n, last) == IF n = 0 THEN last ELSE LET y == InvQuad(p, x) IN InvQuadN(p, <<x[2], x[3], y>>, n - 1, y)
(* Euler's method over n steps of h *)
RECURSIVE EulerR(_, _, _, _, _)
EulerR(p, x, y, h, n) == IF n <= 0 THEN y ELSE EulerR(p, RAdd(x, h), RAdd(y, RMul(h, F1(p, x))), h, n - 1)
RECURSIVE EulerV(_, _, _, _, _)
EulerV(p, x, y, h, n) == IF n <= 0 THEN y ELSE EulerV(p, RAdd(x, h), RAdd(y, RMul(h, Eval(p, <<x, y>>))), h, n - 1)
Steps(q0, p, h) == RTrunc(RDiv(RSub(p, q0), h))
(* the two-dimensional DCT-II of the input centred around 128 *)
Dct(A) ==
  LET M_ == A.r N_ == A.c
      al(i, n) == IF i = 1 THEN RInv(RSqrt(n)) ELSE RSqrt(RDiv(2, n))
      cs(i, k, n) == RFun("cos", RDiv(RMul(RPi, (i - 1) * (2 * k - 1)), 2 * n))
      C == [i \in 1..M_ |-> [k \in 1..M_ |-> cs(i, k, M_)]]
      E == [j \in 1..N_ |-> [k \in 1..N_ |-> cs(j, k, N_)]]
      X == [k \in 1..M_ |-> [f \in 1..N_ |-> RSub(A.d[k][f], 128)]]
      F(i, j) == RMul(RMul(al(i, M_), al(j, N_)), RSum([k \in 1..M_ |-> RMul(C[i][k], RDot(X[k], E[j]))]))
  IN Mk(M_, N_, F)
(* the second partial derivative test of a function of two variables *)
Spd(p, x) == LET H == Hess(p, x) d == Det(H) IN
  IF RLt(d, 0) THEN "saddle" ELSE IF RLt(0, d) THEN (IF RLt(0, H.d[1][1]) THEN "min" ELSE "max") ELSE "test was inconclusive"
NDo(st, e) ==
  LET f == e.a[1] d == e.a[2] p == e.a[4] a(i) == e.a[4 + i] num(v) == Out(st, v) obj(v) == Out(Put(st, d, v), "ok") V(i) == st[a(i)] IN
  CASE f = "num_diffr" -> num(D1(p, a(1)))
    [] f = "num_diff_2r" -> num(D2(p, a(1)))
    [] f = "num_diff_3r" -> num(D3(p, a(1)))
    [] f = "constant_approximationr" -> num(F1(p, a(1)))
    [] f = "linear_approximationr" -> num(Taylor1(p, <<a(1)>>, <<a(2)>>))
    [] f = "quadratic_approximationr" -> num(Taylor2(p, <<a(1)>>, <<a(2)>>))
    [] f = "cubic_approximationr" -> num(Taylor3(p, <<a(1)>>, <<a(2)>>))
    [] f = "newton_raphson_method" -> num(Newton(p, a(1), a(2)))
    [] f = "halley_method" -> num(Halley(p, a(1), a(2)))
    [] f = "inv_quadratic_interpolation" -> num(InvQuadN(p, V(1), a(2), 0))
    [] f = "eulerian_methodr" -> num(EulerR(p, a(1), a(2), a(4), Steps(a(1), a(3), a(4))))
    [] f = "eulerian_methodv" -> num(EulerV(p, a(1), a(2), a(4), Steps(a(1), a(3), a(4))))
    [] f = "growth_method" -> num(RMul(a(1), RExp(RMul(a(2), a(3)))))
    [] f = "num_diffv" -> num(Grad(p, V(1))[a(2) + 1])
    [] f = "num_diff_2v" -> num(Hess(p, V(1)).d[a(2) + 1][a(3) + 1])
    [] f = "num_diff_3v" -> num(Third(p, V(1)).d[a(2) + 1][a(3) + 1][a(4) + 1])
    [] f = "jacobian" -> obj(Grad(p, V(1)))
    [] f = "hessian" -> obj(Hess(p, V(1)))
    [] f = "third_order_tensor" -> obj(Third(p, V(1)))
    [] f = "third_order_tensorvt" -> LET T_ == Third(p, V(1)) n == Len(V(1)) IN Out(PutAll(st, d, [i \in 1..n |-> [r |-> n, c |-> n, d |-> T_.d[i]]]), "ok")
    [] f = "constant_approximationv" -> num(Eval(p, V(1)))
    [] f = "linear_approximationv" -> num(Taylor1(p, V(1), V(2)))
    [] f = "quadratic_approximationv" -> num(Taylor2(p, V(1), V(2)))
    [] f = "cubic_approximationv" -> num(Taylor3(p, V(1), V(2)))
    [] f = "laplacian" -> num(Trace(Hess(p, V(1))))
    [] f = "second_partial_derivative_test" -> num(Spd(p, V(1)))
    [] f = "dct" -> obj(Dct(V(1)))
Exact == {"constant_approximationr", "constant_approximationv", "inv_quadratic_interpolation", "eulerian_methodr", "eulerian_methodv", "growth_method", "dct", "second_partial_derivative_test"}
(* finite differences: the error of the step, and rounding, are bounded, not specified *)
Near(e, x, y) == IF e.op # "N" THEN Same(x, y)
                 ELSE IF e.a[3] = "float" THEN (IF e.a[1] \in Exact THEN SameTol(x, y, "1e-3", "1e-3") ELSE SameTol(x, y, "0.15", "0.3"))
                 ELSE IF e.a[1] \in Exact THEN SameTol(x, y, "1e-8", "1e-8") ELSE SameTol(x, y, "1e-2", "5e-2")
Do(st, e) == IF e.op = "N" THEN NDo(st, e) ELSE MDo(st, e)
Expected(st, e) == Do(st, e)
(* the state before the call is recorded state, so what the call must leave alone is compared exactly *)
Untouched(st, e) == \A k \in DOMAIN st : IF e.op = "N" /\ k # e.a[2] THEN k \in DOMAIN e.s /\ SameX(st[k], e.s[k]) ELSE TRUE
Conforms(st, e) == LET o == Do(st, e) IN Near(e, o.r, e.r) /\ Near(e, o.s, e.s) /\ (e.op = "N" /\ e.a[1] # "third_order_tensorvt" => Untouched(st, e))
After(st, e) == e.s
==========================================================================
