----------------------------- MODULE OptTheory -----------------------------
(* Design properties of the optimisers and the second-order methods.       *)
EXTENDS LearnOps
VARIABLES w1, b, q, lr, size
Init == w1 \in {-8, 2, 5} /\ b \in {-3, 1} /\ q \in {-2, 0, 2} /\ lr \in {"0.1", "0.02"} /\ size \in 1..4
Next == UNCHANGED <<w1, b, q, lr, size>>
T(n) == RDiv(n, 10)
A == [r |-> 4, c |-> 2, d |-> <<<<1, q>>, <<-1, 2>>, <<T(5), 1>>, <<2, -1>>>>]
y == <<1, -2, T(5), 3>>
m == [kind |-> "lin", X |-> "X", y |-> "y", reg |-> "none", lam |-> R("0.2"), al |-> R("0.3"), yh |-> "null", a |-> "none", w |-> <<T(w1), T(7)>>, b |-> T(b)]
near(x, z) == SameTol(x, z, "1e-7", "1e-7")
\* without momentum the step is the plain mini-batch step
Plain == /\ near(Opt("momentum", m, A, y, R(lr), size, 3, <<0>>), MB(m, A, y, R(lr), 3, size))
         /\ near(Opt("nag", m, A, y, R(lr), size, 3, <<0>>), MB(m, A, y, R(lr), 3, size))
\* the first corrected step of Adam and Adamax moves every weight by the rate, against its gradient
g == Grad(m, [A |-> A, y |-> y])
OneStep == \A f \in {"adam", "adamax"} : LET n == Opt(f, m, A, y, R(lr), 4, 1, <<R("0.9"), R("0.99"), R("1e-8")>>) IN
           \A i \in 1..2 : RLt(R("1e-4"), RAbs(g[i])) => SameTol(RSub(m.w[i], n.w[i]), RMul(RSign(g[i]), R(lr)), "1e-3", "1e-6")
NormalOk == LET n == Normal(m, A, y) rn == Normal([m EXCEPT !.reg = "ridge"], A, y)
                Res(p) == MulVec(Transpose(A), [i \in 1..4 |-> RSub(RDot(p.w, A.d[i]), y[i])]) IN
            /\ near(Res(n), <<0, 0>>)
            /\ near([i \in 1..2 |-> RAdd(Res(rn)[i], RMul(m.lam, rn.w[i]))], <<0, 0>>)
\* at rate n a single Newton step solves the normal equations of the current bias
NewtonOk == LET n == Newton(m, A, y, 4, 1) IN near(MulVec(Transpose(A), [i \in 1..4 |-> RSub(RAdd(RDot(n.w, A.d[i]), m.b), y[i])]), <<0, 0>>)
=========================================================================
