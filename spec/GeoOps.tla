------------------------------- MODULE GeoOps -------------------------------
(* Vectors are sequences of numbers of any dimension, boxes are pairs <<position, size>>, colours are <<r, g, b, a>>. *)
(* Every function of the implementation is a pure function of such values.                                           *)
EXTENDS Rl, Integers, Sequences, FiniteSets, TLC
Dim(x) == Len(x)
VAdd(x, y) == Strict([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
VSub(x, y) == Strict([i \in 1..Len(x) |-> RSub(x[i], y[i])])
VMul(x, y) == Strict([i \in 1..Len(x) |-> RMul(x[i], y[i])])
VDiv(x, y) == Strict([i \in 1..Len(x) |-> RDiv(x[i], y[i])])
VScale(x, k) == Strict([i \in 1..Len(x) |-> RMul(x[i], k)])
VFun(f, x) == Strict([i \in 1..Len(x) |-> RFun(f, x[i])])
VMin(x, y) == Strict([i \in 1..Len(x) |-> RMin(x[i], y[i])])
VMax(x, y) == Strict([i \in 1..Len(x) |-> RMax(x[i], y[i])])
VAll(x, k) == Strict([i \in 1..Len(x) |-> k])
VNeg(x) == VFun("neg", x)
VSign(x) == Strict([i \in 1..Len(x) |-> IF RLt(x[i], 0) THEN -1 ELSE 1])           \* zero counts as positive
Dot(x, y) == RDot(x, y)
LenSq(x) == Dot(x, x)
Norm(x) == RSqrt(LenSq(x))
IsZero(x) == \A i \in 1..Len(x) : REq(x[i], 0)
Unit(x) == IF IsZero(x) THEN x ELSE LET n == Norm(x) IN Strict([i \in 1..Len(x) |-> RDiv(x[i], n)])
Cross(x, y) == IF Len(x) = 2 THEN RSub(RMul(x[1], y[2]), RMul(x[2], y[1])) ELSE Strict(<<RSub(RMul(x[2], y[3]), RMul(x[3], y[2])), RSub(RMul(x[3], y[1]), RMul(x[1], y[3])), RSub(RMul(x[1], y[2]), RMul(x[2], y[1]))>>)
Lerp(x, y, w) == Strict([i \in 1..Len(x) |-> RAdd(x[i], RMul(w, RSub(y[i], x[i])))])
VEq(x, y) == \A i \in 1..Len(x) : REq(x[i], y[i])
RECURSIVE LexLt(_, _)
LexLt(x, y) == x /= <<>> /\ (RLt(x[1], y[1]) \/ (REq(x[1], y[1]) /\ LexLt(Tail(x), Tail(y))))
Dist(x, y) == Norm(VSub(x, y))
(* the number below b in [0, b), congruent to a: for negative b in (b, 0] *)
FMod(a, b) == RSub(a, RMul(b, RFun("floor", RDiv(a, b))))
Abs0(k) == IF k < 0 THEN -k ELSE k
TQuot(a, b) == LET q == Abs0(a) \div Abs0(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q     \* truncated quotient, remainder with the sign of a
TRem(a, b) == a - b * TQuot(a, b)
Snap(a, s) == IF REq(s, 0) THEN a ELSE RMul(RFun("floor", RAdd(RDiv(a, s), R("0.5"))), s)
Cubic(p, a, b, q, w) == LET w2 == RMul(w, w) w3 == RMul(w2, w) IN RMul(R("0.5"), RSum(<<RMul(2, a), RMul(RSub(b, p), w),
    RMul(RSum(<<RMul(2, p), RMul(-5, a), RMul(4, b), RNeg(q)>>), w2), RMul(RSum(<<RNeg(p), RMul(3, a), RMul(-3, b), q>>), w3)>>))
Bezier(a, c, d, b, t) == LET u == RSub(1, t) IN VAdd(VAdd(VScale(a, RPow(u, 3)), VScale(c, RMul(3, RMul(RMul(u, u), t)))), VAdd(VScale(d, RMul(3, RMul(u, RMul(t, t)))), VScale(b, RPow(t, 3))))
Toward(x, y, d) == LET n == Dist(x, y) IN IF RLe(n, d) THEN y ELSE VAdd(x, VScale(VSub(y, x), RDiv(d, n)))
Limit(x, l) == LET n == Norm(x) IN IF RLt(0, n) /\ RLt(l, n) THEN VScale(x, RDiv(l, n)) ELSE x
Reflect(x, n) == VSub(VScale(n, RMul(2, Dot(x, n))), x)
Slide(x, n) == VSub(x, VScale(n, Dot(x, n)))
Rot2(x, t) == LET c == RFun("cos", t) s == RFun("sin", t) IN Strict(<<RSub(RMul(c, x[1]), RMul(s, x[2])), RAdd(RMul(s, x[1]), RMul(c, x[2]))>>)
(* Rodrigues: turn x by t about the unit axis k *)
Rot3(x, k, t) == LET c == RFun("cos", t) s == RFun("sin", t) IN VAdd(VAdd(VScale(x, c), VScale(Cross(k, x), s)), VScale(k, RMul(Dot(k, x), RSub(1, c))))
Angle(x, y) == IF Len(x) = 2 THEN RAtan2(Cross(x, y), Dot(x, y)) ELSE RAtan2(Norm(Cross(x, y)), Dot(x, y))
Slerp(x, y, w) == IF Len(x) = 2 THEN Rot2(x, RMul(w, Angle(x, y))) ELSE
    IF IsZero(Cross(x, y)) THEN Lerp(x, y, w) ELSE
      LET l == Norm(x) m == RAdd(l, RMul(w, RSub(Norm(y), l))) IN VScale(Rot3(x, Unit(Cross(x, y)), RMul(w, Angle(x, y))), RDiv(m, l))
SameAngle(p, q) == Same(RFun("cos", p), RFun("cos", q)) /\ Same(RFun("sin", p), RFun("sin", q)) /\ RLe(RAbs(p), R("3.1415926536"))
Clamp(x, lo, hi) == VMin(VMax(x, lo), hi)
Put(x, i, v) == Strict([j \in 1..Len(x) |-> IF j = i THEN v ELSE x[j]])
Least(x, i) == \A j \in 1..Len(x) : RLe(x[i], x[j])
Greatest(x, i) == \A j \in 1..Len(x) : RLe(x[j], x[i])
(* values this close are equal, this far apart are not: in between either answer will do *)
Far(a, b) == RLt(RMul(R("3e-5"), RMax(1, RMax(RAbs(a), RAbs(b)))), RAbs(RSub(a, b)))
Near(a, b) == RLt(RAbs(RSub(a, b)), R("3e-6"))
ApproxOk(x, y, r) == (r => \A i \in 1..Len(x) : ~Far(x[i], y[i])) /\ ((\A i \in 1..Len(x) : Near(x[i], y[i])) => r)
VecQ(t, f, x, a) == CASE
     f = "add" -> <<VAdd(x, a[1]), VAdd(x, x)>> [] f = "sub" -> <<VSub(x, a[1]), VAll(x, 0)>> [] f = "mul" -> VMul(x, a[1]) [] f = "div" -> VDiv(x, a[1])
  [] f = "imul" -> <<VMul(x, a[1]), VDiv(x, a[1])>> [] f \in {"scale", "lscale"} -> VScale(x, a[1]) [] f = "unscale" -> VDiv(x, VAll(x, a[1])) [] f = "neg" -> VNeg(x)
  [] f = "cmp" -> <<VEq(x, a[1]), ~VEq(x, a[1]), LexLt(x, a[1]), LexLt(a[1], x)>> [] f = "le" -> <<~LexLt(a[1], x), ~LexLt(x, a[1])>>
  [] f = "length" -> <<Norm(x), LenSq(x)>> [] f = "abs" -> VFun("abs", x) [] f = "sign" -> VSign(x)
  [] f = "set" -> <<Put(x, a[1] + 1, a[2]), a[2]>> [] f = "set_axis" -> <<Put(x, a[1] + 1, a[2]), a[2]>> [] f = "zero" -> VAll(x, 0) [] f = "set_all" -> VAll(x, a[1])
  [] f = "lerp" -> Lerp(x, a[1], a[2]) [] f = "lerp2" -> Lerp(x, a[1], a[2]) [] f = "normal" -> Unit(x) [] f = "limit" -> Limit(x, a[1])
  [] f = "dist" -> <<Dist(x, a[1]), LenSq(VSub(x, a[1]))>> [] f = "dir" -> Unit(VSub(a[1], x)) [] f \in {"dot", "vdot"} -> Dot(x, a[1])
  [] f = "posmod" -> Strict([i \in 1..Len(x) |-> FMod(x[i], a[1])]) [] f = "posmodv" -> Strict([i \in 1..Len(x) |-> FMod(x[i], a[1][i])])
  [] f = "cubic" -> Strict([i \in 1..Len(x) |-> Cubic(a[2][i], x[i], a[1][i], a[3][i], a[4])]) [] f = "bezier" -> Bezier(x, a[1], a[2], a[3], a[4])
  [] f \in {"floor", "ceil", "round"} -> VFun(f, x) [] f \in {"snap", "snapi"} -> Strict([i \in 1..Len(x) |-> Snap(x[i], a[1][i])])
  [] f = "toward" -> Toward(x, a[1], a[2]) [] f = "project" -> VScale(a[1], RDiv(Dot(x, a[1]), LenSq(a[1]))) [] f = "slide" -> Slide(x, a[1])
  [] f = "reflect" -> Reflect(x, a[1]) [] f = "bounce" -> VNeg(Reflect(x, a[1])) [] f = "slerp" -> Slerp(x, a[1], a[2]) [] f = "clamp" -> Clamp(x, a[1], a[2])
  [] f = "mod" -> Strict([i \in 1..Len(x) |-> TRem(x[i], a[1][i])]) [] f = "mods" -> Strict([i \in 1..Len(x) |-> TRem(x[i], a[1])])
  [] f = "cross" -> Cross(x, a[1]) [] f = "minmax" -> <<VMin(x, a[1]), VMax(x, a[1])>> [] f = "set_rot" -> <<RFun("cos", a[1]), RFun("sin", a[1])>>
  [] f = "tangent" -> <<x[2], RNeg(x[1])>> [] f = "aspect" -> RDiv(x[1], x[2]) [] f = "plane_project" -> VSub(a[2], VScale(x, RSub(Dot(x, a[2]), a[1])))
  [] f = "toi" -> VFun("trunc", x) [] f = "tov" -> x [] f = "inverse" -> Strict([i \in 1..Len(x) |-> RDiv(1, x[i])])
  [] f = "rotated" -> IF Len(x) = 2 THEN Rot2(x, a[1]) ELSE Rot3(x, a[1], a[2])
  [] f = "outer" -> <<Strict([i \in 1..3 |-> VScale(a[1], x[i])]), Strict([i \in 1..3 |-> Strict([j \in 1..3 |-> IF i = j THEN x[i] ELSE 0])])>>
IntTypes == {"v2i", "v3i", "v4i", "r2i"}
VecOk(t, f, x, a, r) == CASE
     f = "min_axis" -> Least(x, r + 1) [] f = "max_axis" -> Greatest(x, r + 1)
  [] f = "is_normal" -> LET d == RAbs(RSub(LenSq(x), 1)) IN (r => RLt(d, R("0.0025"))) /\ (RLt(d, R("1e-9")) => r)
  [] f = "approx" -> ApproxOk(x, a[1], r[1]) /\ ApproxOk(x, VAll(x, 0), r[2]) [] f = "approx_tol" -> LET m(i) == RAbs(RSub(x[i], a[1][i])) IN r = \A i \in 1..3 : RLt(m(i), a[2])
  [] f \in {"angle", "angle_pt", "angle_to", "signed_angle"} -> SameAngle(r, CASE f = "angle" -> RAtan2(x[2], x[1]) [] f = "angle_pt" -> RAtan2(RSub(x[2], a[1][2]), RSub(x[1], a[1][1]))
        [] f = "angle_to" -> Angle(x, a[1]) [] f = "signed_angle" -> IF RLt(Dot(Cross(x, a[1]), a[2]), 0) THEN RNeg(Angle(x, a[1])) ELSE Angle(x, a[1]))
  [] f \in {"div", "unscale", "imul"} /\ t \in IntTypes -> LET y == IF f = "unscale" THEN VAll(x, a[1]) ELSE a[1] q == Strict([i \in 1..Len(x) |-> TQuot(x[i], y[i])]) IN
        IF f = "imul" THEN SameX(r, <<VMul(x, y), q>>) ELSE SameX(r, q)
  [] f = "lerp" /\ t \in IntTypes -> LET e == Lerp(x, a[1], a[2]) IN Len(r) = Len(x) /\ \A i \in 1..Len(x) : RLt(RAbs(RSub(r[i], e[i])), 1)
  [] OTHER -> Same(r, VecQ(t, f, x, a))
(* --- boxes ------------------------------------------------------------------------------------------------------ *)
Lo(b) == b[1]
Hi(b) == VAdd(b[1], b[2])
Box(lo, hi) == <<lo, VSub(hi, lo)>>
NoBox(n) == <<[i \in 1..n |-> 0], [i \in 1..n |-> 0]>>
LeAll(x, y) == \A i \in 1..Len(x) : RLe(x[i], y[i])
LtAll(x, y) == \A i \in 1..Len(x) : RLt(x[i], y[i])
Touches(b, c) == LeAll(Lo(b), Hi(c)) /\ LeAll(Lo(c), Hi(b))
Overlaps(b, c) == LtAll(Lo(b), Hi(c)) /\ LtAll(Lo(c), Hi(b))
Encloses(b, c) == LeAll(Lo(b), Lo(c)) /\ LeAll(Hi(c), Hi(b))
InClosed(b, p) == LeAll(Lo(b), p) /\ LeAll(p, Hi(b))
InHalfOpen(b, p) == LeAll(Lo(b), p) /\ LtAll(p, Hi(b))
Common(b, c) == Box(VMax(Lo(b), Lo(c)), VMin(Hi(b), Hi(c)))
Merge(b, c) == Box(VMin(Lo(b), Lo(c)), VMax(Hi(b), Hi(c)))
GrowBy(b, l, h) == Box(VSub(Lo(b), l), VAdd(Hi(b), h))
Centre(b) == VAdd(Lo(b), VScale(b[2], R("0.5")))
BAbs(b) == Box(VMin(Lo(b), Hi(b)), VMax(Lo(b), Hi(b)))
Volume(b) == IF Len(b[2]) = 2 THEN RMul(b[2][1], b[2][2]) ELSE RMul(RMul(b[2][1], b[2][2]), b[2][3])
Corner(b, s) == Strict([i \in 1..Len(b[1]) |-> IF s[i] = 1 THEN Hi(b)[i] ELSE Lo(b)[i]])      \* s says which end of each side
Corners(b) == [k \in 1..8 |-> Corner(b, <<(k - 1) \div 4, ((k - 1) \div 2) % 2, (k - 1) % 2>>)]
(* the part [T, U] of the line from p along d on which the point lies in the closed box *)
Hit(b, p, d, t0, t1) ==
  LET At(i, w) == RDiv(RSub(w, p[i]), d[i])
      I == {i \in 1..Len(p) : ~REq(d[i], 0)}
      Near1(i) == RMin(At(i, Lo(b)[i]), At(i, Hi(b)[i]))
      Far1(i) == RMax(At(i, Lo(b)[i]), At(i, Hi(b)[i]))
      RECURSIVE Top(_, _)
      Top(S, m) == IF S = {} THEN m ELSE LET i == CHOOSE i \in S : TRUE IN Top(S \ {i}, RMax(m, Near1(i)))
      RECURSIVE Bot(_, _)
      Bot(S, m) == IF S = {} THEN m ELSE LET i == CHOOSE i \in S : TRUE IN Bot(S \ {i}, RMin(m, Far1(i)))
      T == Top(I, t0) U == Bot(I, t1)
  IN [hit |-> (\A i \in (1..Len(p)) \ I : RLe(Lo(b)[i], p[i]) /\ RLe(p[i], Hi(b)[i])) /\ RLe(T, U), t |-> T, faces |-> {i \in I : REq(Near1(i), T)}]
PDist(pl, p) == RSub(Dot(pl[1], p), pl[2])
XForm(m, p) == VAdd(VAdd(VScale(m[1], p[1]), VScale(m[2], p[2])), m[3])
Corners2(b) == <<Lo(b), <<Hi(b)[1], Lo(b)[2]>>, <<Lo(b)[1], Hi(b)[2]>>, Hi(b)>>
Span(ax, ps) == LET d == [k \in 1..Len(ps) |-> Dot(ax, ps[k])]
                    RECURSIVE Mn(_, _)
                    Mn(k, m) == IF k > Len(ps) THEN m ELSE Mn(k + 1, RMin(m, d[k]))
                    RECURSIVE Mx(_, _)
                    Mx(k, m) == IF k > Len(ps) THEN m ELSE Mx(k + 1, RMax(m, d[k])) IN <<Mn(1, d[1]), Mx(1, d[1])>>
(* separating axes of two rectangles, the second placed by m with orthogonal columns *)
Gap(b, m, c, slack) == \E ax \in {1, 2, 3, 4} : LET v == CASE ax = 1 -> <<1, 0>> [] ax = 2 -> <<0, 1>> [] ax = 3 -> Unit(m[1]) [] OTHER -> Unit(m[2])
                                                   p == Span(v, Corners2(b)) q == Span(v, [k \in 1..4 |-> XForm(m, Corners2(c)[k])]) IN
                                              RLt(RAdd(p[2], slack), q[1]) \/ RLt(RAdd(q[2], slack), p[1])
SideAmt(s, k, n) == IF s = k THEN n ELSE 0
Over(pl, p) == RLt(pl[2], Dot(pl[1], p))
BoxQ(t, f, x, a) == CASE
     f = "intersects" -> Overlaps(x, a[1]) [] f = "touches" -> Touches(x, a[1]) [] f = "encloses" -> Encloses(x, a[1])
  [] f = "has_point" -> (IF t = "bb" THEN InClosed(x, a[1]) ELSE InHalfOpen(x, a[1]))
  [] f \in {"intersection", "clip"} -> IF (t = "bb" /\ Touches(x, a[1])) \/ Overlaps(x, a[1]) THEN Common(x, a[1]) ELSE NoBox(Len(x[1]))
  [] f \in {"merge", "merge_with"} -> Merge(x, a[1]) [] f = "grow" -> GrowBy(x, VAll(x[1], a[1]), VAll(x[1], a[1])) [] f = "expand" -> Merge(x, <<a[1], VAll(a[1], 0)>>)
  [] f = "grow_ind" -> GrowBy(x, <<a[1], a[2]>>, <<a[3], a[4]>>) [] f = "grow_side" -> GrowBy(x, <<SideAmt(a[1], 0, a[2]), SideAmt(a[1], 1, a[2])>>, <<SideAmt(a[1], 2, a[2]), SideAmt(a[1], 3, a[2])>>)
  [] f = "babs" -> BAbs(x) [] f = "end" -> <<Hi(x), Box(Lo(x), a[1])>> [] f = "acc" -> <<<<a[1], a[2]>>, a[1], a[2]>> [] f = "beq" -> LET q == VEq(x[1], a[1][1]) /\ VEq(x[2], a[1][2]) IN <<q, ~q>>
  [] f = "center" -> Centre(x) [] f = "area" -> <<Volume(x), \E i \in 1..2 : RLe(x[2][i], 0)>> [] f = "to2" -> x
  [] f = "volume" -> <<Volume(x), \E i \in 1..3 : RLe(x[2][i], 0), \A i \in 1..3 : RLe(x[2][i], 0)>>
  [] f = "plane" -> LET c == Corners(x) IN (\E k \in 1..8 : RLt(0, PDist(a[1], c[k]))) /\ (\E k \in 1..8 : RLe(PDist(a[1], c[k]), 0))
  [] f = "range" -> LET c == Corners(x) p == [k \in 1..8 |-> PDist(a[1], c[k])]
                        RECURSIVE Mn(_) Mn(k) == IF k = 8 THEN p[8] ELSE RMin(p[k], Mn(k + 1)) RECURSIVE Mx(_) Mx(k) == IF k = 8 THEN p[8] ELSE RMax(p[k], Mx(k + 1)) IN <<Mn(1), Mx(1)>>
  [] f = "corners" -> Corners(x) [] f = "inside" -> LET c == Corners(x) IN \A q \in 1..Len(a[1]) : \A k \in 1..8 : ~Over(a[1][q], c[k])
  [] f = "convex" -> LET c == Corners(x) IN (\A q \in 1..Len(a[1]) : \E k \in 1..8 : ~Over(a[1][q], c[k])) /\
                        \A i \in 1..3 : (\E p \in 1..Len(a[2]) : RLe(a[2][p][i], Hi(x)[i])) /\ (\E p \in 1..Len(a[2]) : RLe(Lo(x)[i], a[2][p][i]))
  [] f = "ray" -> Hit(x, a[1], a[2], 0, R("1e18")).hit
  [] f = "points" -> IF x = <<>> THEN <<FALSE>> ELSE LET RECURSIVE Mg(_) Mg(k) == IF k = 0 THEN <<x[1], VAll(x[1], 0)>> ELSE Merge(Mg(k - 1), <<x[k], VAll(x[1], 0)>>) IN <<TRUE, Mg(Len(x))>>
OneHot(v, i) == \A j \in 1..Len(v) : REq(v[j], IF j = i THEN 1 ELSE 0)
BoxOk(t, f, x, a, r) == CASE
  (* where integer rectangles share only an edge, either answer is accepted *)
     t = "r2i" /\ f = "intersects" -> (r => Touches(x, a[1])) /\ (Overlaps(x, a[1]) => r)
  [] t = "r2i" /\ f = "encloses" -> (r => Encloses(x, a[1])) /\ ((Encloses(x, a[1]) /\ LtAll(Hi(a[1]), Hi(x))) => r)
  [] t = "r2i" /\ f \in {"intersection", "clip"} -> IF Overlaps(x, a[1]) THEN SameX(r, Common(x, a[1])) ELSE IF Touches(x, a[1]) THEN SameX(r, Common(x, a[1])) \/ SameX(r, NoBox(2)) ELSE SameX(r, NoBox(2))
  [] t = "r2i" /\ f = "center" -> SameX(r, VAdd(x[1], Strict([i \in 1..2 |-> TQuot(x[2][i], 2)])))
  [] f = "bapprox" -> ApproxOk(x[1] \o x[2], a[1][1] \o a[1][2], r)
  (* a corner that lies furthest against the normal *)
  [] f = "support" -> LET n == Len(x[1]) IN (\A i \in 1..n : REq(r[i], Lo(x)[i]) \/ REq(r[i], Hi(x)[i])) /\ Same(Dot(r, a[1]), RSum([i \in 1..n |-> RMin(RMul(Lo(x)[i], a[1][i]), RMul(Hi(x)[i], a[1][i]))]))
  [] f = "segment" -> LET h == Hit(x, a[1], VSub(a[2], a[1]), 0, 1) d == VSub(a[2], a[1]) IN
        IF ~h.hit THEN SameX(r, <<FALSE>>) ELSE Len(r) = 3 /\ r[1] /\ Same(r[2], VAdd(a[1], VScale(d, h.t)))
           /\ (RLt(0, h.t) => \E i \in h.faces : \A j \in 1..Len(d) : REq(r[3][j], IF j = i THEN -RSign(d[i]) ELSE 0))
  [] f = "smits" -> LET h == Hit(x, a[1], a[2], a[3], a[4]) g == Hit(x, a[1], a[2], RAdd(a[3], R("1e-9")), RSub(a[4], R("1e-9"))) IN (r => h.hit) /\ (g.hit => r)
  [] f = "xform" -> (r => ~Gap(x, a[1], a[2], R("1e-9"))) /\ ((~Gap(x, a[1], a[2], R("-1e-9"))) => r)
  [] f = "longest" -> Greatest(x[2], r[1] + 1) /\ REq(r[2], x[2][r[1] + 1]) /\ OneHot(r[3], r[1] + 1) /\ Least(x[2], r[4] + 1) /\ REq(r[5], x[2][r[4] + 1]) /\ OneHot(r[6], r[4] + 1)
  (* twelve different edges: two corners each, which differ along one axis *)
  [] f = "edges" -> LET c == Corners(x) Ix(p) == {k \in 1..8 : VEq(c[k], p)} e(k) == {Ix(r[k][1]), Ix(r[k][2])} IN
        /\ Len(r) = 12 /\ \A k \in 1..12 : Ix(r[k][1]) /= {} /\ Ix(r[k][2]) /= {} /\ Cardinality({i \in 1..3 : ~REq(r[k][1][i], r[k][2][i])}) = 1
        /\ Cardinality({e(k) : k \in 1..12}) = 12
  (* the smallest cells that cover it, or one more at the far end *)
  [] f = "quantized" -> LET u == a[1] Cell(v) == RLt(RAbs(RSub(v, RMul(u, RFun("round", RDiv(v, u))))), R("1e-9")) h == Hi(r) IN
        \A i \in 1..3 : Cell(r[1][i]) /\ Cell(h[i]) /\ RLe(r[1][i], x[1][i]) /\ RLt(RSub(x[1][i], r[1][i]), u) /\ RLe(Hi(x)[i], h[i]) /\ RLe(RSub(h[i], Hi(x)[i]), u)
  [] OTHER -> Same(r, BoxQ(t, f, x, a))
(* --- colours ---------------------------------------------------------------------------------------------------- *)
Byte(v, top) == RFun("floor", RAdd(RMul(v, top), R("0.5")))
Bytes(c, top, order) == [k \in 1..4 |-> Byte(c[order[k]], top)]
Unbytes(b, top) == Strict([k \in 1..4 |-> RDiv(b[k], top)])
Rgb(f, c) == <<f[1], f[2], f[3], c[4]>>
Top3(c) == RMax(c[1], RMax(c[2], c[3]))
Low3(c) == RMin(c[1], RMin(c[2], c[3]))
Hsv(c) == LET m == Top3(c) d == RSub(m, Low3(c))
              h == IF REq(d, 0) THEN 0 ELSE RDiv(CASE REq(c[1], m) -> RDiv(RSub(c[2], c[3]), d) [] REq(c[2], m) -> RAdd(2, RDiv(RSub(c[3], c[1]), d)) [] OTHER -> RAdd(4, RDiv(RSub(c[1], c[2]), d)), 6)
          IN <<IF RLt(h, 0) THEN RAdd(h, 1) ELSE h, IF REq(m, 0) THEN 0 ELSE RDiv(d, m), m>>
(* channel n of the colour with hue h: V - V S max(0, min(k, 4 - k, 1)) with k = (n + 6 h) mod 6 *)
HsvChan(n, h, s, v) == LET k == FMod(RAdd(n, RMul(6, h)), 6) IN RSub(v, RMul(RMul(v, s), RMax(0, RMin(RMin(k, RSub(4, k)), 1))))
FromHsv(h, s, v, al) == Strict(<<HsvChan(5, h, s, v), HsvChan(3, h, s, v), HsvChan(1, h, s, v), al>>)
Blend(c, o) == LET ia == RSub(1, o[4]) al == RAdd(RMul(c[4], ia), o[4]) IN IF REq(al, 0) THEN <<0, 0, 0, 0>> ELSE
    Strict([k \in 1..4 |-> IF k = 4 THEN al ELSE RDiv(RAdd(RMul(RMul(c[k], c[4]), ia), RMul(o[k], o[4])), al)])
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE IF ch \in 65..70 THEN ch - 55 ELSE -1
HexDig(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexTxt(b) == <<HexDig(b \div 16), HexDig(b % 16)>>
(* "#" optional; 3, 4, 6 or 8 digits, alpha first *)
HtmlDigits(s) == IF s /= <<>> /\ s[1] = 35 THEN Tail(s) ELSE s
HtmlOk(s) == LET d == HtmlDigits(s) IN Len(d) \in {3, 4, 6, 8} /\ \A k \in 1..Len(d) : HexVal(d[k]) >= 0
HtmlVal(s) == LET d == HtmlDigits(s) w == IF Len(d) <= 4 THEN 1 ELSE 2 n == Len(d) \div w
                  B(k) == IF w = 1 THEN 17 * HexVal(d[k]) ELSE 16 * HexVal(d[2 * k - 1]) + HexVal(d[2 * k]) IN
              IF ~HtmlOk(s) THEN <<0, 0, 0, 1>> ELSE IF n = 3 THEN Unbytes(<<B(1), B(2), B(3), 255>>, 255) ELSE Unbytes(<<B(2), B(3), B(4), B(1)>>, 255)
HtmlTxt(c, alpha) == LET T(k) == HexTxt(RMax(0, RMin(255, Byte(c[k], 255)))) IN (IF alpha THEN T(4) ELSE <<>>) \o T(1) \o T(2) \o T(3)
Linear(v) == IF RLe(v, R("0.04045")) THEN RDiv(v, R("12.92")) ELSE RPow(RDiv(RAdd(v, R("0.055")), R("1.055")), R("2.4"))
Srgb(v) == IF RLe(v, R("0.0031308")) THEN RMul(v, R("12.92")) ELSE RSub(RMul(R("1.055"), RPow(v, RDiv(1, R("2.4")))), R("0.055"))
ColQ(f, x, a) == CASE
     f = "add" -> VAdd(x, a[1]) [] f = "sub" -> VSub(x, a[1]) [] f = "mul" -> VMul(x, a[1]) [] f = "div" -> VDiv(x, a[1]) [] f = "scale" -> VScale(x, a[1]) [] f = "unscale" -> VDiv(x, VAll(x, a[1]))
  [] f = "neg" -> VSub(<<1, 1, 1, 1>>, x) [] f = "inverted" -> Rgb(VSub(<<1, 1, 1, 1>>, x), x) [] f = "contrasted" -> Rgb([k \in 1..3 |-> FMod(RAdd(x[k], R("0.5")), 1)], x)
  [] f = "clamp" -> Clamp(x, a[1], a[2]) [] f = "clamp01" -> Clamp(x, VAll(x, 0), VAll(x, 1)) [] f = "lerp" -> Lerp(x, a[1], a[2])
  [] f = "shade" -> <<Rgb(VScale(x, RSub(1, a[1])), x), Rgb(Lerp(x, <<1, 1, 1, 1>>, a[1]), x)>> [] f = "blend" -> Blend(x, a[1])
  [] f = "lum" -> Dot(<<x[1], x[2], x[3]>>, <<R("0.2126"), R("0.7152"), R("0.0722")>>) [] f = "from_hsv" -> FromHsv(x, a[1], a[2], a[3])
  [] f = "set_hsv1" -> LET h == Hsv(x) IN <<FromHsv(a[1], h[2], h[3], x[4]), FromHsv(h[1], a[1], h[3], x[4]), FromHsv(h[1], h[2], a[1], x[4])>>
  [] f = "pack" -> <<Bytes(x, 255, <<1, 2, 3, 4>>), Bytes(x, 255, <<4, 1, 2, 3>>), Bytes(x, 255, <<4, 3, 2, 1>>), Bytes(x, 65535, <<1, 2, 3, 4>>), Bytes(x, 65535, <<4, 1, 2, 3>>), Bytes(x, 65535, <<4, 3, 2, 1>>)>>
  [] f = "hex" -> Unbytes(x, 255) [] f = "hex64" -> Unbytes(x, 65535) [] f = "html" -> <<HtmlVal(x), HtmlOk(x)>> [] f = "to_html" -> <<HtmlTxt(x, TRUE), HtmlTxt(x, FALSE)>>
  [] f = "get8" -> [k \in 1..4 |-> RMax(0, RMin(255, Byte(x[k], 255)))] [] f = "set8" -> Unbytes([k \in 1..4 |-> RMax(0, RMin(255, x[k]))], 255)
  [] f = "color8" -> <<Unbytes(x, 255), Unbytes(<<x[1], x[2], x[3], 255>>, 255)>> [] f = "linear" -> Rgb([k \in 1..3 |-> Linear(x[k])], x) [] f = "srgb" -> Rgb([k \in 1..3 |-> Srgb(x[k])], x)
  [] f = "alpha" -> <<<<x[1], x[2], x[3], a[1]>>, <<a[1], a[1], a[1], 1>>, <<0, 0, 0, 1>>>> [] f = "at" -> <<Put(x, a[1] + 1, a[2]), a[2]>>
CTol(r, e) == SameTol(r, e, "3e-6", "3e-6")
ColOk(f, x, a, r) == CASE
     f = "hsv" -> LET h == Hsv(x) IN CTol(r[2], h[2]) /\ CTol(r[3], h[3]) /\ (CTol(r[1], h[1]) \/ CTol(RAbs(RSub(r[1], h[1])), 1))
  [] f = "rgbe" -> LET q == RAdd(RDiv(Top3(x), 500), R("1e-7")) IN (\A k \in 1..3 : RLe(RAbs(RSub(r[k], x[k])), q)) /\ REq(r[4], 1)
  [] f = "cmp" -> LET y == a[1] IN r[1] = VEq(x, y) /\ r[2] = ~VEq(x, y) /\ r[3] = LexLt(x, y) /\ ApproxOk(x, y, r[4])
  [] f \in {"pack", "get8", "to_html"} -> SameX(r, ColQ(f, x, a))
  [] f \in {"linear", "srgb"} -> SameTol(r, ColQ(f, x, a), "1e-5", "1e-5")
  [] OTHER -> CTol(r, ColQ(f, x, a))
GOk(e) == LET t == e.a[1] f == e.a[2] x == e.a[3] a == SubSeq(e.a, 4, Len(e.a)) IN
  IF t = "col" THEN ColOk(f, x, a, e.r) ELSE IF t \in {"r2", "r2i", "bb"} THEN BoxOk(t, f, x, a, e.r) ELSE VecOk(t, f, x, a, e.r)
GExp(e) == LET t == e.a[1] f == e.a[2] x == e.a[3] a == SubSeq(e.a, 4, Len(e.a)) IN
  IF t = "col" THEN ColQ(f, x, a) ELSE IF t \in {"r2", "r2i", "bb"} THEN BoxQ(t, f, x, a) ELSE VecQ(t, f, x, a)
=============================================================================
