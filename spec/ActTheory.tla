----------------------------- MODULE ActTheory -----------------------------
(* The specification itself: every derivative is the limit of the        *)
(* difference quotient of its function, and normalised rows sum to one.   *)
EXTENDS ActOps
Dom(f) == CASE f \in {"logit", "arsech"} -> [lo |-> 1, hi |-> 19]
            [] f = "arcosh" -> [lo |-> 22, hi |-> 60]
            [] f = "artanh" -> [lo |-> -19, hi |-> 19]
            [] f = "arcoth" -> [lo |-> 22, hi |-> 60]
            [] f \in {"sinc", "csch", "coth", "arcsch", "relu", "softsign", "mish", "sign", "unit_step"} -> [lo |-> 1, hi |-> 60]
            [] OTHER -> [lo |-> -60, hi |-> 60]
Fns == {"linear", "sigmoid", "swish", "mish", "sinc", "softplus", "softsign", "cloglog", "logit", "gaussian_cdf", "relu", "gelu", "sign", "unit_step",
        "sinh", "cosh", "tanh", "csch", "sech", "coth", "arsinh", "arcosh", "artanh", "arcsch", "arsech", "arcoth"}
VARIABLES f, k
Init == f \in Fns /\ k \in -60..60 /\ k >= Dom(f).lo /\ k <= Dom(f).hi
Next == UNCHANGED <<f, k>>
h == R("1e-5")
z == RDiv(k, 20)
Quot(x) == RDiv(RSub(Act(f, RAdd(x, h)), Act(f, RSub(x, h))), RMul(2, h))
Derivative == SameTol(Quot(z), ActD(f, z), "1e-5", "1e-5") /\ (f \in {"csch", "coth", "arcsch", "relu", "softsign"} => SameTol(Quot(RNeg(z)), ActD(f, RNeg(z)), "1e-5", "1e-5"))
Rows == LET v == <<z, RSq(z), 1, k>> s == Softmax(v) IN SameTol(RSum(s), 1, "1e-9", "1e-9") /\ \A i, j \in 1..4 : RLt(v[i], v[j]) => RLt(s[i], s[j])
=========================================================================
