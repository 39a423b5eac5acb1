---------------------------- MODULE LearnTheory ----------------------------
(* Design properties of the training relation: a full step is the rate    *)
(* times the gradient of the shown cost, one mini-batch of everything is  *)
(* gradient descent, epochs compose, and a perfect or zero-rate step       *)
(* moves nothing.                                                          *)
EXTENDS LearnOps
Ks == {"lin", "log", "probit", "cloglog", "tanh", "exp", "softmax"}
VARIABLES k, w1, b, q, lr, reg
Init == k \in Ks /\ w1 \in {2, 5, 9} /\ b \in {-3, 1} /\ q \in {-1, 0, 2} /\ lr \in {"0.1", "0.5"} /\ reg \in {"none", "ridge", "lasso", "elastic_net"}
Next == UNCHANGED <<k, w1, b, q, lr, reg>>
T(n) == RDiv(n, 10)
A == [r |-> 3, c |-> 2, d |-> IF k = "exp" THEN <<<<1, 2>>, <<2, 0>>, <<3, 1>>>> ELSE <<<<1, q>>, <<-1, 2>>, <<T(5), 1>>>>]
y == IF k = "softmax" THEN [r |-> 3, c |-> 2, d |-> <<<<1, 0>>, <<0, 1>>, <<1, 0>>>>] ELSE <<1, 0, 1>>
m == [kind |-> k, X |-> "X", y |-> "y", reg |-> "none", lam |-> R("0.2"), al |-> R("0.3"), yh |-> "null",
      a |-> IF k = "exp" THEN <<T(4), T(-3)>> ELSE "none",
      w |-> IF k = "softmax" THEN [r |-> 2, c |-> 2, d |-> <<<<T(w1), T(2)>>, <<T(b), T(-4)>>>>] ELSE <<T(w1), T(7)>>,
      b |-> IF k = "softmax" THEN <<T(b), T(q)>> ELSE T(b)]
st == [X |-> A, y |-> y]
C(mm) == CostOf(mm, PredS(st, mm, A), y)
h == R("1e-5")
D(p, n) == RDiv(RSub(C(p), C(n)), RMul(2, h))
Up(x) == RAdd(x, h)
Dn(x) == RSub(x, h)
near(x, z) == SameTol(x, z, "1e-4", "1e-5")
S == GD(m, A, y, R(lr), 1)
Moved(old, new, d) == near(new, RSub(old, RMul(R(lr), d)))
Gradient ==
  IF k = "softmax" THEN
    /\ Moved(m.w.d[1][2], S.w.d[1][2], D([m EXCEPT !.w.d[1][2] = Up(@)], [m EXCEPT !.w.d[1][2] = Dn(@)]))
    /\ Moved(m.b[1], S.b[1], D([m EXCEPT !.b[1] = Up(@)], [m EXCEPT !.b[1] = Dn(@)]))
  ELSE /\ \A i \in 1..2 : Moved(m.w[i], S.w[i], D([m EXCEPT !.w[i] = Up(@)], [m EXCEPT !.w[i] = Dn(@)]))
       /\ Moved(m.b, S.b, D([m EXCEPT !.b = Up(@)], [m EXCEPT !.b = Dn(@)]))
       /\ k = "exp" => \A i \in 1..2 : Moved(m.a[i], S.a[i], D([m EXCEPT !.a[i] = Up(@)], [m EXCEPT !.a[i] = Dn(@)]))
mr == [m EXCEPT !.reg = reg]
OneBatch == SameTol(MB(mr, A, y, R(lr), 2, 3), GD(mr, A, y, R(lr), 2), "1e-9", "1e-9")
EpochSplit == Same(GD(mr, A, y, R(lr), 3), GD(GD(mr, A, y, R(lr), 1), A, y, R(lr), 2))
\* one of the stochastic models is always the step of the first sample; with identical samples all agree
Twin == [A EXCEPT !.d = <<A.d[1], A.d[1], A.d[1]>>]
Fixed == /\ Same(GD(m, A, y, 0, 2), m)
         /\ k \notin {"softmax"} => LET yy == <<1, 1, 1>> IN LET ss == SGs(<<m>>, Twin, yy, R(lr), 1) IN \A i \in 1..Len(ss) : SameTol(ss[i], GD(m, Twin, yy, R(lr), 1), "1e-9", "1e-9")
=========================================================================
