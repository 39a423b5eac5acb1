------------------------------ MODULE ActOps ------------------------------
(* The activation functions: their definitions and their derivatives.    *)
EXTENDS LinOps
Cosh(z) == RFun("cosh", z)
Sinh(z) == RFun("sinh", z)
Tanh(z) == RFun("tanh", z)
Sigmoid(z) == RInv(RAdd(1, RExp(RNeg(z))))
Softplus(z) == RLn(RAdd(1, RExp(z)))
Swish(z) == RMul(z, Sigmoid(z))
Mish(z) == RMul(z, Tanh(Softplus(z)))
Cube(z) == RMul(z, RMul(z, z))
GeluArg(z) == RMul(RSqrt(RDiv(2, RPi)), RAdd(z, RMul(R("0.044715"), Cube(z))))

Act(f, z) ==
  CASE f = "linear" -> z
    [] f = "sigmoid" -> Sigmoid(z)
    [] f = "swish" -> Swish(z)
    [] f = "mish" -> Mish(z)
    [] f = "sinc" -> RDiv(RFun("sin", z), z)
    [] f = "softplus" -> Softplus(z)
    [] f = "softsign" -> RDiv(z, RAdd(1, RAbs(z)))
    [] f = "cloglog" -> RSub(1, RExp(RNeg(RExp(z))))
    [] f = "logit" -> RLn(RDiv(z, RSub(1, z)))
    [] f = "gaussian_cdf" -> RMul(R("0.5"), RAdd(1, RFun("erf", RDiv(z, RSqrt(2)))))
    [] f = "relu" -> RMax(0, z)
    [] f = "gelu" -> RMul(RMul(R("0.5"), z), RAdd(1, Tanh(GeluArg(z))))
    [] f = "sign" -> RSign(z)
    [] f = "unit_step" -> IF RLt(z, 0) THEN 0 ELSE 1
    [] f = "sinh" -> Sinh(z)
    [] f = "cosh" -> Cosh(z)
    [] f = "tanh" -> Tanh(z)
    [] f = "csch" -> RInv(Sinh(z))
    [] f = "sech" -> RInv(Cosh(z))
    [] f = "coth" -> RInv(Tanh(z))
    [] f = "arsinh" -> RFun("asinh", z)
    [] f = "arcosh" -> RFun("acosh", z)
    [] f = "artanh" -> RFun("atanh", z)
    [] f = "arcsch" -> RFun("asinh", RInv(z))
    [] f = "arsech" -> RFun("acosh", RInv(z))
    [] f = "arcoth" -> RFun("atanh", RInv(z))
    \* the scalar forms of the normalised activations, which only have a meaning for rows
    [] f = "softmax" -> z
    [] f = "adj_softmax" -> 0

ActD(f, z) ==
  CASE f = "linear" -> 1
    [] f = "sigmoid" -> RMul(Sigmoid(z), RSub(1, Sigmoid(z)))
    [] f = "swish" -> RAdd(Swish(z), RMul(Sigmoid(z), RSub(1, Swish(z))))
    [] f = "mish" -> LET t == Tanh(Softplus(z)) IN RAdd(t, RMul(RMul(z, Sigmoid(z)), RSub(1, RMul(t, t))))
    [] f = "sinc" -> RDiv(RSub(RMul(z, RFun("cos", z)), RFun("sin", z)), RSq(z))
    [] f = "softplus" -> Sigmoid(z)
    [] f = "softsign" -> RInv(RSq(RAdd(1, RAbs(z))))
    [] f = "cloglog" -> RMul(RExp(z), RExp(RNeg(RExp(z))))
    [] f = "logit" -> RInv(RMul(z, RSub(1, z)))
    [] f = "gaussian_cdf" -> RDiv(RExp(RDiv(RNeg(RSq(z)), 2)), RSqrt(RMul(2, RPi)))
    [] f = "relu" -> IF RLt(0, z) THEN 1 ELSE 0
    [] f = "gelu" -> LET t == Tanh(GeluArg(z)) da == RMul(RSqrt(RDiv(2, RPi)), RAdd(1, RMul(R("0.134145"), RSq(z)))) IN
         RAdd(RMul(R("0.5"), RAdd(1, t)), RMul(RMul(R("0.5"), z), RMul(RSub(1, RSq(t)), da)))
    [] f \in {"sign", "unit_step"} -> 0
    [] f = "sinh" -> Cosh(z)
    [] f = "cosh" -> Sinh(z)
    [] f = "tanh" -> RSub(1, RSq(Tanh(z)))
    [] f = "csch" -> RNeg(RDiv(Cosh(z), RSq(Sinh(z))))
    [] f = "sech" -> RNeg(RDiv(Sinh(z), RSq(Cosh(z))))
    [] f = "coth" -> RNeg(RInv(RSq(Sinh(z))))
    [] f = "arsinh" -> RInv(RSqrt(RAdd(RSq(z), 1)))
    [] f = "arcosh" -> RInv(RSqrt(RSub(RSq(z), 1)))
    [] f \in {"artanh", "arcoth"} -> RInv(RSub(1, RSq(z)))
    [] f = "arcsch" -> RNeg(RInv(RMul(RAbs(z), RSqrt(RAdd(RSq(z), 1)))))
    [] f = "arsech" -> RNeg(RInv(RMul(z, RSqrt(RSub(1, RSq(z))))))
    [] f = "softmax" -> z
    [] f = "adj_softmax" -> 0

(* invariant under a common shift, so taken relative to the largest entry *)
Softmax(v) == IF v = <<>> THEN <<>> ELSE
  LET m == At(v, ArgBest(v, RGt)) x == [i \in 1..Len(v) |-> RExp(RSub(v[i], m))] s == RSum(x) IN [i \in 1..Len(v) |-> RDiv(x[i], s)]
SoftmaxJac(v) == LET a == Softmax(v) F(i, j) == IF i = j THEN RMul(a[i], RSub(1, a[i])) ELSE RNeg(RMul(a[i], a[j])) IN Mk(Len(v), Len(v), F)
PerRow == {"softmax", "adj_softmax"}
(* the derivative pass of the normalised activations is, by convention of the library, the normalised row *)
ActV(f, deriv, v) == IF f \in PerRow THEN Softmax(v) ELSE [i \in 1..Len(v) |-> IF deriv THEN ActD(f, v[i]) ELSE Act(f, v[i])]
ActM(f, deriv, A) == [A EXCEPT !.d = [i \in 1..A.r |-> ActV(f, deriv, A.d[i])]]
ActR(f, deriv, z) == IF deriv THEN ActD(f, z) ELSE Act(f, z)

(* activations with parameters, which no selector names *)
PAct(f, deriv, z, p) ==
  CASE f = "leaky_relu" -> IF deriv THEN (IF RLe(z, 0) THEN p[1] ELSE 1) ELSE (IF RLt(z, 0) THEN RMul(p[1], z) ELSE z)
    [] f = "elu" -> IF deriv THEN (IF RLe(z, 0) THEN RMul(p[1], RExp(z)) ELSE 1) ELSE (IF RLt(z, 0) THEN RMul(p[1], RSub(RExp(z), 1)) ELSE z)
    [] f = "selu" -> RMul(p[1], IF deriv THEN (IF RLe(z, 0) THEN RMul(p[2], RExp(z)) ELSE 1) ELSE (IF RLt(z, 0) THEN RMul(p[2], RSub(RExp(z), 1)) ELSE z))

(* event A <<via, function, derivative?, "r"|"v"|"m", argument, destination, parameters>> *)
ADo(st, e) ==
  LET f == e.a[2] d == e.a[3] k == e.a[4] x == e.a[5] IN
  CASE e.a[1] = "jacobian" -> Out(Put(st, e.a[6], SoftmaxJac(st[x])), "ok")
    [] e.a[1] = "jacobians" ->
         LET A == st[x] a == [i \in 1..A.r |-> Softmax(A.d[i])] IN
         Out(st, [i \in 1..A.r |-> [r |-> A.r, c |-> A.c, d |-> [j \in 1..A.r |-> [q \in 1..A.c |->
           IF i = j THEN RSub(a[i][q], RSq(a[i][q])) ELSE RNeg(RMul(a[i][q], a[j][q]))]]]])
    [] e.a[1] = "param" ->
         LET p == e.a[7] F(y) == PAct(f, d, y, p) IN
         (CASE k = "r" -> Out(st, F(x))
            [] k = "v" -> Out(Put(st, e.a[6], MapS(F, st[x])), "ok")
            [] k = "m" -> Out(Put(st, e.a[6], MapM(F, st[x])), "ok"))
    [] OTHER ->
         CASE k = "r" -> Out(st, ActR(f, d, x))
           [] k = "v" -> Out(Put(st, e.a[6], ActV(f, d, st[x])), "ok")
           [] k = "m" -> Out(Put(st, e.a[6], ActM(f, d, st[x])), "ok")
=========================================================================
