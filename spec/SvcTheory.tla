----------------------------- MODULE SvcTheory -----------------------------
(* Design properties of the support-vector learners.                       *)
EXTENDS LearnOps
VARIABLES w1, b, q, cc, ep
Init == w1 \in {-8, 2, 5} /\ b \in {-3, 1} /\ q \in {-2, 0, 2} /\ cc \in {"0.5", "2"} /\ ep \in 1..3
Next == UNCHANGED <<w1, b, q, cc, ep>>
T(n) == RDiv(n, 10)
A == [r |-> 3, c |-> 2, d |-> <<<<1, q>>, <<-1, 2>>, <<T(5), 1>>>>]
y == <<1, -1, 1>>
s == [kind |-> "svc", X |-> "X", y |-> "y", reg |-> "none", lam |-> 0, al |-> R(cc), yh |-> "null", a |-> "none", w |-> <<T(w1), T(7)>>, b |-> T(b)]
d == [s EXCEPT !.kind = "dual", !.a = <<T(w1), T(b), T(q)>>]
Boxed == LET x == DualGD(d, A, y, T(2), ep) IN \A i \in 1..3 : RLe(0, x.a[i]) /\ RLe(x.a[i], R(cc))
st == [X |-> A, y |-> y]
Z(m) == [i \in 1..3 |-> Zof(m, A.d[i])]
\* cost |w|^2/2 + C mean(hinge) stepped with the penalty at rate lr/n after the loss
C(m) == CostF("hinge_loss", Z(m), y)
h == R("1e-6")
Smooth == \A i \in 1..3 : RLt(R("1e-3"), RAbs(RSub(1, RMul(y[i], Z(s)[i]))))
Q(p, n) == RMul(R(cc), RDiv(RSub(C(p), C(n)), RMul(2, h)))
n1 == GD(s, A, y, T(1), 1)
HingeGradient == Smooth =>
  /\ \A i \in 1..2 : LET gr == Q([s EXCEPT !.w[i] = RAdd(@, h)], [s EXCEPT !.w[i] = RSub(@, h)]) mid == RSub(s.w[i], RMul(T(1), gr)) IN
       SameTol(n1.w[i], RSub(mid, RMul(RDiv(T(1), 3), mid)), "1e-5", "1e-6")
  /\ SameTol(n1.b, RSub(s.b, RMul(T(1), Q([s EXCEPT !.b = RAdd(@, h)], [s EXCEPT !.b = RSub(@, h)]))), "1e-5", "1e-6")
OneBatch == SameTol(MB(s, A, y, T(1), ep, 3), GD(s, A, y, T(1), ep), "1e-9", "1e-9")
=========================================================================
