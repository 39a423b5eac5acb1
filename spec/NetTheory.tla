----------------------------- MODULE NetTheory -----------------------------
(* Design properties of the network relation: a step is the rate times the *)
(* gradient of the shown cost by every parameter of every layer, epochs     *)
(* compose, one whole mini-batch is gradient descent, and optimisers with   *)
(* neutral settings coincide.                                               *)
EXTENDS NetOps
VARIABLES f, g, w1, b1, q, cost, on
\* the first step only spreads the work over the workers
Init == on = FALSE /\ f \in {"sigmoid", "tanh", "softplus", "swish"} /\ g \in {"tanh", "arsinh", "gaussian_cdf"} /\ w1 \in {2, -5} /\ b1 \in {-3, 1} /\ q \in {-1, 2} /\ cost \in {"mse", "log_loss", "cross_entropy"}
Next == ~on /\ on' = TRUE /\ UNCHANGED <<f, g, w1, b1, q, cost>>
T(n) == RDiv(n, 10)
A == [r |-> 3, c |-> 2, d |-> <<<<1, q>>, <<-1, 2>>, <<T(5), 1>>>>]
Lay(w, b, act, c) == [w |-> w, b |-> b, f |-> act, cost |-> c, reg |-> "none", lam |-> R("0.2"), al |-> R("0.3")]
W1 == [r |-> 2, c |-> 2, d |-> <<<<T(w1), T(4)>>, <<T(-3), T(7)>>>>]
W2 == [r |-> 2, c |-> 2, d |-> <<<<T(6), T(w1)>>, <<T(2), T(-1)>>>>]
W3 == [r |-> 2, c |-> 1, d |-> <<<<T(3)>>, <<T(-8)>>>>]
Wo == [r |-> 2, c |-> 2, d |-> <<<<T(3), T(1)>>, <<T(-8), T(5)>>>>]
B2 == <<T(b1), T(2)>>
Sch == [t |-> "none", d |-> 0, drop |-> 0]
Mod(kind, ls, out) == [kind |-> kind, X |-> "X", y |-> "y", ls |-> ls, out |-> out, sch |-> Sch, yh |-> "null"]
H == <<Lay(W1, B2, f, "none"), Lay(W2, B2, g, "none")>>
Hm == <<Lay(W1, B2, "sigmoid", "none")>>
Ann == Mod("ann", H, Lay(W3, <<T(b1)>>, IF cost = "mse" THEN "swish" ELSE "sigmoid", cost))
Mann == Mod("mann", H, Lay(Wo, B2, IF cost = "cross_entropy" THEN "softmax" ELSE IF cost = "mse" THEN "swish" ELSE "sigmoid", cost))
Mlp == Mod("mlp", Hm, Lay(W3, <<T(b1)>>, "sigmoid", "log_loss"))
Snet == Mod("snet", Hm, Lay(Wo, B2, "softmax", "cross_entropy"))
Ae == Mod("ae", Hm, Lay(Wo, B2, "linear", "mse"))
Y1 == ColM(<<1, 0, 1>>)
Y2 == [r |-> 3, c |-> 2, d |-> <<<<1, 0>>, <<0, 1>>, <<1, 0>>>>]
Yof(m) == CASE m.kind \in Single -> Y1 [] m.kind = "ae" -> A [] OTHER -> Y2
h == R("1e-5")
\* the library's derivatives are those of the cost summed over the samples
Scale(m) == IF m.out.cost = "cross_entropy" THEN 1 ELSE IF m.out.cost = "log_loss" \/ m.out.cost = "mse" THEN Yof(m).r * Yof(m).c ELSE 1
C(m) == RMul(Scale(m), CostOf(m, Predict(m, A), Yof(m)))
D(p, n) == RDiv(RSub(C(p), C(n)), RMul(2, h))
near(x, z) == SameTol(x, z, "2e-4", "2e-6")
lr == R("0.1")
Rt(m) == CASE m.kind = "snet" -> lr [] OTHER -> RDiv(lr, A.r)
Brt(m, i) == IF m.kind = "ae" /\ i = Len(m.ls) + 1 THEN lr ELSE Rt(m)
Put1(m, L, i, l) == SetAll(m, [L EXCEPT ![i] = l])
Grad1(m) ==
  LET L == All(m) N == All(NetStep(m, A, Yof(m), lr, A.r)) IN
  \A i \in 1..Len(L) :
    /\ \A r \in 1..L[i].w.r, c \in 1..L[i].w.c :
         near(N[i].w.d[r][c], RSub(L[i].w.d[r][c], RMul(Rt(m), D(Put1(m, L, i, [L[i] EXCEPT !.w.d[r][c] = RAdd(@, h)]), Put1(m, L, i, [L[i] EXCEPT !.w.d[r][c] = RSub(@, h)])))))
    /\ \A c \in 1..Len(L[i].b) :
         near(N[i].b[c], RSub(L[i].b[c], RMul(Brt(m, i), D(Put1(m, L, i, [L[i] EXCEPT !.b[c] = RAdd(@, h)]), Put1(m, L, i, [L[i] EXCEPT !.b[c] = RSub(@, h)])))))
Gradient == on => (Grad1(Ann) /\ Grad1(Mann))
GradientTwo == on => (Grad1(Mlp) /\ Grad1(Snet) /\ Grad1(Ae))
Compose == on => \A i \in 1..5 : LET m == <<Ann, Mann, Mlp, Snet, Ae>>[i] IN
  /\ Same(Run("gd", m, A, Yof(m), lr, 3, 3, <<>>), Run("gd", Run("gd", m, A, Yof(m), lr, 1, 3, <<>>), A, Yof(m), lr, 2, 3, <<>>))
  /\ Same(Run("mbgd", m, A, Yof(m), lr, 2, 3, <<>>), Run("gd", m, A, Yof(m), lr, 2, 3, <<>>))
  /\ Same(Run("gd", m, A, Yof(m), 0, 2, 3, <<>>), m)
Optimisers == on => LET m == Ann O(x, p) == Run(x, m, A, Yof(m), lr, 2, 1, p) IN
  /\ SameTol(O("momentum", <<0>>), O("mbgd", <<>>), "1e-9", "1e-9")
  /\ SameTol(O("amsgrad", <<0, 0, R("0.1")>>), Run("amsgrad", m, A, Yof(m), lr, 2, 1, <<0, 0, R("0.1")>>), "1e-9", "1e-9")
  /\ SameTol(Run("adam", m, A, Yof(m), lr, 1, 3, <<R("0.3"), R("0.4"), R("0.1")>>), Run("adamax", m, A, Yof(m), lr, 1, 3, <<R("0.3"), R("0.9"), R("0.1")>>), "1e-9", "1e-9")
  /\ SameTol(Run("nadam", m, A, Yof(m), lr, 1, 3, <<0, R("0.4"), R("0.1")>>), Run("adagrad", m, A, Yof(m), lr, 1, 3, <<R("0.1")>>), "1e-9", "1e-9")
RowWise == on => \A i \in 1..5 : LET m == <<Ann, Mann, Mlp, Snet, Ae>>[i] p == Predict(m, A) IN
  \A j \in 1..A.r : Same(p.d[j], Predict(m, RowsOf(A, <<j>>)).d[1])
=========================================================================
