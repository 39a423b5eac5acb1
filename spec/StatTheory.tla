---------------------------- MODULE StatTheory ----------------------------
EXTENDS StatSpec
(* design properties, model checked over all small samples *)
VARIABLE smp
Samples == UNION {[1..n -> -2..2] : n \in 2..4}
TInit == smp \in Samples
TNext == UNCHANGED smp
Perm(v, p) == [i \in 1..Len(v) |-> v[p[i]]]
Symmetric == \A i \in 1..(Len(smp) - 1) :
  LET p == [j \in 1..Len(smp) |-> IF j = i THEN i + 1 ELSE IF j = i + 1 THEN i ELSE j] y == Perm(smp, p) IN
  /\ \A f \in {"meanv", "median", "range", "abs_avg_deviation", "variancev", "rms"} : Same(Stat1(f, smp), Stat1(f, y))
  /\ Modes(smp) = Modes(y)
Bounds == /\ RLe(0, Variance(smp)) /\ RLe(Red("min_element", smp), Median(smp)) /\ RLe(Median(smp), Red("max_element", smp))
          /\ RLe(RAbs(Mean(smp)), RAdd(Stat1("rms", smp), R("1e-9")))
          /\ (~REq(Variance(smp), 0) => Same(Corr(smp, smp), 1) /\ Same(B1(smp, MapS(RNeg, smp)), -1))
=========================================================================
