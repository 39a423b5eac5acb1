---------------------------- MODULE NumTheory ----------------------------
EXTENDS NumSpec
(* design properties over all small bivariate quadratics/cubics and points *)
VARIABLES cf, pt
Exps == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, 2>>>>
TInit == cf \in [1..6 -> -1..1] /\ pt \in {<<a, b>> : a \in -1..1, b \in {0, 2}}
TNext == UNCHANGED <<cf, pt>>
Poly(tail) == [c |-> <<1, 0>>, t |-> [i \in 1..6 |-> [k |-> cf[i], e |-> Exps[i]]] \o tail]
Q == Poly(<<>>)
C3 == Poly(<<[k |-> 2, e |-> <<2, 1>>], [k |-> 1, e |-> <<0, 3>>]>>)
(* mixed partials commute; Taylor polynomials are exact for their degree, and match at the centre *)
MixedOk == Hess(C3, pt) = Transpose(Hess(C3, pt))
TaylorOk == \A o \in {<<0, 0>>, <<2, -1>>} :
  /\ Same(Taylor2(Q, o, pt), Eval(Q, pt)) /\ Same(Taylor3(C3, o, pt), Eval(C3, pt))
  /\ Same(Taylor1(C3, pt, pt), Eval(C3, pt)) /\ Same(Taylor3(Q, o, pt), Taylor2(Q, o, pt))
(* Newton solves a linear equation in one step and stays at a root *)
Line == [c |-> <<pt[1]>>, t |-> <<[k |-> cf[1], e |-> <<0>>], [k |-> 2, e |-> <<1>>]>>]
NewtonOk == /\ Same(F1(Line, Newton(Line, pt[2], 1)), 0) /\ Same(Newton(Line, pt[2], 1), Newton(Line, pt[2], 2))
            /\ Same(Halley(Line, pt[2], 1), Newton(Line, pt[2], 1))
EulerOk == Same(EulerR([c |-> <<0>>, t |-> <<[k |-> cf[2], e |-> <<0>>]>>], pt[1], pt[2], R("0.5"), 4), RAdd(pt[2], 2 * cf[2]))
(* the DCT of a matrix is an isometry of the centred input *)
DctOk == LET A == [r |-> 2, c |-> 3, d |-> <<<<128 + cf[1], 128 + cf[2], 128 + cf[3]>>, <<128 + cf[4], 128 + cf[5], 128 + cf[6]>>>>] IN
  Same(NormM(Dct(A)), RSqrt(RSum([i \in 1..6 |-> cf[i] * cf[i]])))
===========================================================================
