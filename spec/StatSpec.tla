----------------------------- MODULE StatSpec -----------------------------
(* MLPPStat: event S <<function, arguments..., destination>>.             *)
EXTENDS StatOps
S1 == {"meanv", "median", "range", "midrange", "abs_avg_deviation", "variancev", "standard_deviationv", "geometric_mean", "harmonic_mean", "rms", "contra_harmonic_mean"}
S2 == {"covariancev", "correlation", "r2", "b1_estimation", "b0_estimation", "weighted_mean"}
SP == {"power_mean", "lehmer_mean"}
N2 == {"heronian_mean", "neuman_sandor_mean", "identric_mean", "log_mean"}
N3 == {"heinz_mean", "stolarsky_mean"}
SVal(st, a) ==
  LET f == a[1] IN
  CASE f \in S1 -> IF Has(st, a[2]) THEN Stat1(f, st[a[2]]) ELSE 0
    [] f \in S2 -> IF Has(st, a[2]) /\ Has(st, a[3]) /\ Len(st[a[2]]) = Len(st[a[3]]) THEN Stat2(f, st[a[2]], st[a[3]]) ELSE 0
    [] f \in SP -> StatP(f, st[a[2]], a[3])
    [] f = "weighted_lehmer_mean" -> Lehmer(st[a[2]], st[a[3]], a[4])
    [] f \in N2 -> Num2(f, a[2], a[3])
    [] f \in N3 -> Num3(f, a[2], a[3], a[4])
    [] f = "chebyshev_ineq" -> RSub(1, RInv(RSq(a[2])))
Do(st, e) == IF e.op = "S" /\ e.a[1] # "mode" THEN Out(st, SVal(st, e.a)) ELSE MDo(st, e)
IsMode(e) == e.op = "S" /\ e.a[1] = "mode"
Expected(st, e) == IF IsMode(e) THEN Modes(st[e.a[2]]) ELSE Do(st, e)
(* the modes are a set: any order, each once *)
Conforms(st, e) ==
  IF IsMode(e) THEN LET m == e.s[e.a[3]] want == Modes(st[e.a[2]]) IN
       /\ e.r = "ok" /\ Same(e.s, Put(st, e.a[3], m))
       /\ Same(SortedR(m), want)
  ELSE LET o == Do(st, e) IN SameTol(o.r, e.r, "1e-8", "1e-9") /\ Same(o.s, e.s)
After(st, e) == e.s
=========================================================================
