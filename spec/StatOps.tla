------------------------------ MODULE StatOps ------------------------------
(* Definitions of the statistics. *)
EXTENDS LinOps
SumF(F(_), v) == RSum(MapS(F, v))
Dev(v, m) == [i \in 1..Len(v) |-> RSub(v[i], m)]
Variance(v) == RDiv(NormSq(Dev(v, Mean(v))), Len(v) - 1)
StdDev(v) == RSqrt(Variance(v))
Corr(x, y) == RDiv(CovV(x, y), RMul(StdDev(x), StdDev(y)))
B1(x, y) == RDiv(CovV(x, y), Variance(x))
Median(v) == LET s == SortedR(v) n == Len(v) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), 2)
(* the most frequent values, ascending *)
Modes(v) == LET s == SortedR(v)
                best(k) == \A i \in 1..Len(s) : Count(s, s[i]) <= Count(s, s[k])
                first(k) == k = 1 \/ ~REq(s[k - 1], s[k])
                idx == SetToSeqI({k \in 1..Len(s) : best(k) /\ first(k)})
            IN [i \in 1..Len(idx) |-> s[idx[i]]]
Range(v) == RSub(Red("max_element", v), Red("min_element", v))
Lehmer(v, w, p) == RDiv(RSum([i \in 1..Len(v) |-> RMul(w[i], RPow(v[i], p))]), RSum([i \in 1..Len(v) |-> RMul(w[i], RPow(v[i], RSub(p, 1)))]))
Stat1(f, v) ==
  CASE f = "meanv" -> Mean(v)
    [] f = "median" -> Median(v)
    [] f = "range" -> Range(v)
    [] f = "midrange" -> RDiv(Range(v), 2)      \* the library's midrange is half the range
    [] f = "abs_avg_deviation" -> Mean(MapS(RAbs, Dev(v, Mean(v))))
    [] f = "variancev" -> Variance(v)
    [] f = "standard_deviationv" -> StdDev(v)
    [] f = "geometric_mean" -> RExp(Mean(MapS(RLn, v)))
    [] f = "harmonic_mean" -> RInv(Mean(MapS(RInv, v)))
    [] f = "rms" -> RSqrt(Mean(MapS(RSq, v)))
    [] f = "contra_harmonic_mean" -> RDiv(RSum(MapS(RSq, v)), RSum(v))
Stat2(f, x, y) ==
  CASE f = "covariancev" -> CovV(x, y)
    [] f = "correlation" -> Corr(x, y)
    [] f = "r2" -> RSq(Corr(x, y))
    [] f = "b1_estimation" -> B1(x, y)
    [] f = "b0_estimation" -> RSub(Mean(y), RMul(B1(x, y), Mean(x)))
    [] f = "weighted_mean" -> RDiv(RDot(x, y), RSum(y))
StatP(f, v, p) ==
  CASE f = "power_mean" -> LET G(x) == RPow(x, p) IN RPow(Mean(MapS(G, v)), RInv(p))
    [] f = "lehmer_mean" -> Lehmer(v, Full(Len(v), 1), p)
Num2(f, a, b) ==
  CASE f = "heronian_mean" -> RDiv(RAdd(RAdd(a, RSqrt(RMul(a, b))), b), 3)
    \* as the library defines it
    [] f = "neuman_sandor_mean" -> RMul(RDiv(RSub(a, b), 2), RFun("asinh", RDiv(RSub(a, b), RAdd(a, b))))
    [] f = "identric_mean" -> IF REq(a, b) THEN a ELSE RExp(RSub(RDiv(RSub(RMul(a, RLn(a)), RMul(b, RLn(b))), RSub(a, b)), 1))
    [] f = "log_mean" -> IF REq(a, b) THEN a ELSE RDiv(RSub(b, a), RSub(RLn(b), RLn(a)))
Num3(f, a, b, p) ==
  CASE f = "heinz_mean" -> RDiv(RAdd(RMul(RPow(a, p), RPow(b, RSub(1, p))), RMul(RPow(a, RSub(1, p)), RPow(b, p))), 2)
    [] f = "stolarsky_mean" -> IF REq(a, b) THEN a ELSE RPow(RDiv(RSub(RPow(a, p), RPow(b, p)), RMul(p, RSub(a, b))), RInv(RSub(p, 1)))
=========================================================================
