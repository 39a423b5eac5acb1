------------------------------- MODULE Rl -------------------------------
(* Real numbers and trace plumbing for the pmlpp specifications.         *)
(* A real is a TLA+ integer when integral and small, otherwise a string  *)
(* holding an IEEE double.  The operators below are evaluated by the     *)
(* Java override java/VOverrides.java; the definitions here state their  *)
(* meaning on integers (and stand in for the others).                    *)
EXTENDS Integers, Sequences

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a \div b
RPow(a, b) == a ^ b
RAtan2(a, b) == "atan2"
RLt(a, b) == a < b
RLe(a, b) == a <= b
REq(a, b) == a = b
RFinite(a) == TRUE
RTrunc(a) == a
R(a) == a                     \* normal form of a real literal such as "0.5"
RFun(f, a) == a               \* f in {"neg","abs","sqrt","exp","ln",...}
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + RSum(Tail(s))
RECURSIVE RDot(_, _)
RDot(x, y) == IF x = <<>> THEN 0 ELSE Head(x) * Head(y) + RDot(Tail(x), Tail(y))
RPi == "3.141592653589793"

Strict(x) == x                      \* evaluate now
SameTol(a, b, rel, abs) == a = b    \* equal up to relative or absolute error in every number
SameX(a, b) == a = b                \* equal exactly, total on all values
LoadLines(file) == <<>>             \* JSON lines
EmitLine(file, v) == TRUE           \* append v as a JSON line
EnvStr(k) == ""
EnvInt(k, d) == d

Same(a, b) == SameTol(a, b, "1e-9", "1e-9")

RNeg(a) == RFun("neg", a)
RAbs(a) == RFun("abs", a)
RExp(a) == RFun("exp", a)
RLn(a) == RFun("ln", a)
RSqrt(a) == RFun("sqrt", a)
RSq(a) == RMul(a, a)
RInv(a) == RDiv(1, a)
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSign(a) == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
=========================================================================
