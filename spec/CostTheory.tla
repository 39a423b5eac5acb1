---------------------------- MODULE CostTheory ----------------------------
(* Design properties of the cost specification: derivatives are the       *)
(* limits of difference quotients of the summed cost, equal arguments     *)
(* cost nothing, regularised weights are the weights minus the gradient   *)
(* of the penalty.                                                        *)
EXTENDS CostOps
Fs == {"mse", "mae", "mbe", "log_loss", "cross_entropy", "hinge_loss", "wasserstein_loss"}
Ts == {"none", "ridge", "lasso", "elastic_net"}
VARIABLES f, a, b, c
Init == f \in Fs /\ a \in 1..9 /\ b \in {0, 1, 3} /\ c \in {-7, -4, 2, 6}
Next == UNCHANGED <<f, a, b, c>>
h == <<RDiv(a, 10), R("0.35"), R("0.62")>>
y == IF f = "hinge_loss" THEN <<RDiv(c, 2), -1, 1>> ELSE <<RDiv(b, 4), 1, 0>>
eps == R("1e-6")
Scale == IF f \in {"cross_entropy"} THEN 1 ELSE 3
Quot == RMul(Scale, RDiv(RSub(CostF(f, [h EXCEPT ![1] = RAdd(@, eps)], y), CostF(f, [h EXCEPT ![1] = RSub(@, eps)], y)), RMul(2, eps)))
Smooth == ~(f = "mae" /\ REq(h[1], y[1]))
Derivative == Smooth => SameTol(Quot, CostD(f, h, y)[1], "1e-5", "1e-5")
Zero == \A g \in {"mse", "rmse", "mae", "mbe"} : REq(CostF(g, h, h), 0)
HQ == RDiv(RSub(Huber([h EXCEPT ![1] = RAdd(@, eps)], <<c, 0, 1>>, 1), Huber([h EXCEPT ![1] = RSub(@, eps)], <<c, 0, 1>>, 1)), RMul(2, eps))
HuberDeriv == SameTol(HQ, HuberD(h, <<c, 0, 1>>, 1)[1], "1e-4", "1e-4")
X == [r |-> 3, c |-> 2, d |-> <<<<1, c>>, <<a, 2>>, <<-1, b>>>>]
yy == <<1, -1, 1>>
DQ == RDiv(RSub(Dual([h EXCEPT ![1] = RAdd(@, eps)], X, yy), Dual([h EXCEPT ![1] = RSub(@, eps)], X, yy)), RMul(2, eps))
DualDeriv == SameTol(DQ, DualD(h, X, yy)[1], "1e-4", "1e-3")
w == <<RDiv(c, 4), RDiv(a, 3), -2>>
RQ(t) == RDiv(RSub(RegTerm([w EXCEPT ![1] = RAdd(@, eps)], t, a, R("0.3")), RegTerm([w EXCEPT ![1] = RSub(@, eps)], t, a, R("0.3"))), RMul(2, eps))
RegOk == \A t \in Ts : /\ SameTol(RQ(t), RegDeriv(w, t, a, R("0.3"))[1], "1e-4", "1e-4")
                       /\ Same(RegW(w, t, a, R("0.3")), BinV("sub", w, RegDeriv(w, t, a, R("0.3"))))
=========================================================================
