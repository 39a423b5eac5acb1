-------------------------------- MODULE PjOps --------------------------------
(* Projections and triangles. A projection is given by its four columns; here its rows are used. *)
EXTENDS XfOps
RECURSIVE DetN(_)
Minor(m, j) == [i \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[i + 1][IF k < j THEN k ELSE k + 1]]]
RECURSIVE CofSum(_, _)
CofSum(m, j) == IF j > Len(m) THEN 0 ELSE RAdd(RMul(RMul(IF j % 2 = 1 THEN 1 ELSE -1, m[1][j]), DetN(Strict(Minor(m, j)))), CofSum(m, j + 1))
DetN(m) == IF Len(m) = 1 THEN m[1][1] ELSE CofSum(m, 1)
(* frustum from the near rectangle and the two distances; box from left to right, bottom to top, near to far *)
Frust(l, r, b, t, n, f) == <<<<RDiv(RMul(2, n), RSub(r, l)), 0, RDiv(RAdd(r, l), RSub(r, l)), 0>>, <<0, RDiv(RMul(2, n), RSub(t, b)), RDiv(RAdd(t, b), RSub(t, b)), 0>>,
    <<0, 0, RNeg(RDiv(RAdd(f, n), RSub(f, n))), RNeg(RDiv(RMul(2, RMul(f, n)), RSub(f, n)))>>, <<0, 0, -1, 0>>>>
Ortho4(l, r, b, t, n, f) == <<<<RDiv(2, RSub(r, l)), 0, 0, RNeg(RDiv(RAdd(r, l), RSub(r, l)))>>, <<0, RDiv(2, RSub(t, b)), 0, RNeg(RDiv(RAdd(t, b), RSub(t, b)))>>, <<0, 0, RDiv(-2, RSub(f, n)), RNeg(RDiv(RAdd(f, n), RSub(f, n)))>>, <<0, 0, 0, 1>>>>
TanD(deg) == RFun("tan", RDiv(RMul(deg, RPi), 360))                        \* of half the angle given in degrees
Persp(fov, asp, n, f, flip) == LET t == IF flip THEN RDiv(TanD(fov), asp) ELSE TanD(fov) h == RMul(n, t) w == RMul(h, asp) IN Frust(RNeg(w), w, RNeg(h), h, n, f)
Shift4(v) == <<<<1, 0, 0, v[1]>>, <<0, 1, 0, v[2]>>, <<0, 0, 1, v[3]>>, <<0, 0, 0, 1>>>>
Eye(fov, asp, n, f, flip, e, dist, conv) ==
   LET t == IF flip THEN RDiv(TanD(fov), asp) ELSE TanD(fov) h == RMul(n, t) w == RMul(h, asp) s == IF e = 1 THEN 1 ELSE IF e = 2 THEN -1 ELSE 0 d == RMul(s, RDiv(dist, 2)) k == RDiv(RMul(d, n), conv) IN
   MMul(Frust(RSub(k, w), RAdd(k, w), RNeg(h), h, n, f), Shift4(<<d, 0, 0>>))
Hmd(e, asp, dist, width, lens, over, n, f) ==
   LET g1 == RDiv(dist, RMul(2, lens)) g2 == RDiv(RSub(width, dist), RMul(2, lens)) x == RDiv(RMul(RAdd(g1, g2), RSub(over, 1)), 2) g3 == RDiv(RMul(RDiv(width, RMul(4, lens)), over), asp)
       lf == RMul(n, RAdd(IF e = 1 THEN g2 ELSE g1, x)) rt == RMul(n, RAdd(IF e = 1 THEN g1 ELSE g2, x)) h == RMul(n, g3) IN Frust(RNeg(lf), rt, RNeg(h), h, n, f)
Sized(size, asp, flip) == LET w == IF flip THEN size ELSE RMul(size, asp) IN <<RDiv(w, 2), RDiv(RDiv(w, asp), 2)>>
Persp4(m, v) == LET x == MV(m, v \o <<1>>) IN <<RDiv(x[1], x[4]), RDiv(x[2], x[4]), RDiv(x[3], x[4])>>
(* sides of the volume -w <= x, y, z <= w: near, far, left, top, right, bottom; the normals point outwards *)
SideRow(m, k) == CASE k = 1 -> VAdd(m[4], m[3]) [] k = 2 -> VSub(m[4], m[3]) [] k = 3 -> VAdd(m[4], m[1]) [] k = 4 -> VSub(m[4], m[2]) [] k = 5 -> VSub(m[4], m[1]) [] OTHER -> VAdd(m[4], m[2])
SidePlane(m, k) == LET s == SideRow(m, k) n == <<s[1], s[2], s[3]>> l == Norm(n) IN <<VScale(n, RDiv(-1, l)), RDiv(s[4], l)>>
AffPlane(y, p) == LET n == Unit(MV(MT(MInv(y[1])), p[1])) IN <<n, Dot(n, AX(y, VScale(p[1], p[2])))>>
Solve3(p, q, s) == MV(MInv(<<p[1], q[1], s[1]>>), <<p[2], q[2], s[2]>>)
Ends(m) == LET P(k) == SidePlane(m, k) IN [i \in 1..8 |-> Solve3(P(IF i <= 4 THEN 2 ELSE 1), P(IF ((i - 1) \div 2) % 2 = 0 THEN 3 ELSE 5), P(IF (i % 2) = 1 THEN 4 ELSE 6))]
Deg(x) == RDiv(RMul(180, x), RPi)
PjQ(f, c, a) == LET m == MT(c) Cols(x) == MT(x) IN
  CASE f = "identity" -> <<Ident(4), [i \in 1..4 |-> <<0, 0, 0, 0>>]>> [] f = "mul" -> Cols(MMul(m, MT(a[1]))) [] f = "det" -> DetN(m)
  [] f = "inverse" -> Ident(4)   \* product with the inverse, either way round
  [] f = "xform4" -> <<MV(m, a[1]), MV(MT(m), a[1])>> [] f = "xform3" -> Persp4(m, a[1]) [] f = "xformp" -> LET v == MV(m, a[1][1] \o <<a[1][2]>>) IN <<<<v[1], v[2], v[3]>>, v[4]>>
  [] f = "frustum" -> (IF RLe(a[2], a[1]) \/ RLe(a[4], a[3]) \/ RLe(a[6], a[5]) THEN c ELSE Cols(Frust(a[1], a[2], a[3], a[4], a[5], a[6])))
  [] f = "frustum2" -> (LET h == Sized(a[1], a[2], a[6]) IN Cols(Frust(RSub(a[3][1], h[1]), RAdd(a[3][1], h[1]), RSub(a[3][2], h[2]), RAdd(a[3][2], h[2]), a[4], a[5])))
  [] f = "ortho" -> Cols(Ortho4(a[1], a[2], a[3], a[4], a[5], a[6])) [] f = "ortho2" -> (LET h == Sized(a[1], a[2], a[5]) IN Cols(Ortho4(RNeg(h[1]), h[1], RNeg(h[2]), h[2], a[3], a[4])))
  [] f = "persp" -> (IF REq(a[3], a[4]) \/ REq(a[1], 0) THEN c ELSE Cols(Persp(a[1], a[2], a[3], a[4], a[5]))) [] f = "eye" -> Cols(Eye(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])) [] f = "hmd" -> Cols(Hmd(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]))
  [] f = "znear" -> [c EXCEPT ![3] = [@ EXCEPT ![3] = RNeg(RDiv(RAdd(a[2], a[1]), RSub(a[2], a[1])))], ![4] = [@ EXCEPT ![3] = RNeg(RDiv(RMul(2, RMul(a[1], a[2])), RSub(a[2], a[1])))]]   \* a = new near, old far
  [] f = "planes" -> [k \in 1..6 |-> AffPlane(a[1], SidePlane(m, k))] [] f = "plane" -> SidePlane(m, a[1] + 1) [] f = "ends" -> <<TRUE, LET e == Ends(m) IN [i \in 1..8 |-> AX(a[1], e[i])]>>
  [] f = "gets" -> (* near and far distance, near and far half sizes, ratio, horizontal angle, factor; a = n, f, w, h and orthogonal or not *)
       (LET k == IF a[5] THEN 1 ELSE RDiv(a[2], a[1]) IN <<a[1], a[2], <<a[3], a[4]>>, <<RMul(k, a[3]), RMul(k, a[4])>>, RDiv(a[3], a[4]), IF a[5] THEN 0 ELSE RMul(2, Deg(RAtan2(a[3], a[1]))), a[5], IF a[5] THEN a[3] ELSE RDiv(RMul(2, a[3]), a[1])>>)
  [] f = "fov2" -> Deg(RAdd(RAtan2(a[1], a[3]), RAtan2(a[2], a[3]))) [] f = "fovy" -> RMul(2, Deg(RFun("atan", RMul(a[2], TanD(a[1])))))
  [] f = "flip" -> [c EXCEPT ![2] = VNeg(@)] [] f = "jitter" -> [c EXCEPT ![4] = <<RAdd(@[1], a[1][1]), RAdd(@[2], a[1][2]), @[3], @[4]>>] [] f = "scale" -> Diag(a[1] \o <<1>>)
  [] f = "fit" -> (LET lo == a[1][1] hi == VAdd(lo, a[1][2]) IN Cols([i \in 1..4 |-> [j \in 1..4 |-> IF i = 4 THEN (IF j = 4 THEN 1 ELSE 0) ELSE IF j = i THEN RDiv(2, RSub(hi[i], lo[i])) ELSE IF j = 4 THEN RNeg(RDiv(RAdd(hi[i], lo[i]), RSub(hi[i], lo[i]))) ELSE 0]]))
  [] f = "bias" -> Cols(MMul(Shift4(<<R("0.5"), R("0.5"), R("0.5")>>), Diag(<<R("0.5"), R("0.5"), R("0.5"), 1>>))) [] f = "depth" -> Cols(MMul(Shift4(<<0, 0, R("0.5")>>), Diag(<<1, IF a[1] THEN -1 ELSE 1, R("0.5"), 1>>)))
  [] f = "atlas" -> Cols(MMul(Shift4(<<a[1][1][1], a[1][1][2], 0>>), Diag(<<a[1][2][1], a[1][2][2], 1, 1>>)))
  [] f = "totr" -> <<<<SubSeq(m[1], 1, 3), SubSeq(m[2], 1, 3), SubSeq(m[3], 1, 3)>>, <<m[1][4], m[2][4], m[3][4]>>>> [] f = "fromtr" -> Cols([i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE a[1][1][i] \o <<a[1][2][i]>>])
  [] f = "eq" -> <<VEq(c[1], a[1][1]) /\ VEq(c[2], a[1][2]) /\ VEq(c[3], a[1][3]) /\ VEq(c[4], a[1][4])>> [] f = "ppm" -> RFun("trunc", RMul(RAdd(RMul(Persp4(m, <<1, 0, -1>>)[1], R("0.5")), R("0.5")), a[1]))
Loose == {"det", "gets"}
PjOk(f, c, a, r) == IF f = "inverse" THEN REq(DetN(MT(c)), 0) \/ (LET m == MT(c) i == MT(r) IN SameTol(MMul(m, i), Ident(4), "1e-7", "1e-7") /\ SameTol(MMul(i, m), Ident(4), "1e-7", "1e-7"))
                    ELSE IF f = "ppm" THEN RLe(RAbs(RSub(r, PjQ(f, c, a))), 1) ELSE IF f \in Loose THEN SameTol(r, PjQ(f, c, a), "2e-6", "1e-5") ELSE SameTol(r, PjQ(f, c, a), "1e-8", "1e-9")
(* --- triangles: three points --- *)
FNorm(t) == Cross(VSub(t[1], t[3]), VSub(t[1], t[2]))
FArea2(t) == LenSq(FNorm(t))
FPlane(t, ccw) == LET p == Tri(t[1], t[2], t[3]) IN IF ccw THEN <<VNeg(p[1]), RNeg(p[2])>> ELSE p
OnSeg(p, q, x) == LET d == VSub(q, p) k == RMax(0, RMin(1, RDiv(Dot(VSub(x, p), d), LenSq(d)))) IN VAdd(p, VScale(d, k))
Bary(t, x) == LET n == FNorm(t) k == LenSq(n) W(i, j) == RDiv(Dot(Cross(VSub(t[i], x), VSub(t[j], x)), VNeg(n)), k) IN <<W(2, 3), W(3, 1), W(1, 2)>>
OnFace(t, x) == LET n == Unit(FNorm(t)) IN VSub(x, VScale(n, Dot(n, VSub(x, t[1]))))
Closest(t, x) == LET y == OnFace(t, x) b == Bary(t, y) IN IF \A i \in 1..3 : RLe(0, b[i]) THEN y
   ELSE LET c == Strict(<<OnSeg(t[1], t[2], x), OnSeg(t[2], t[3], x), OnSeg(t[3], t[1], x)>>) k == CHOOSE i \in 1..3 : \A j \in 1..3 : RLe(LenSq(VSub(c[i], x)), LenSq(VSub(c[j], x))) IN c[k]
Amount(v) == IF RLt(RAbs(v), R("1e-5")) THEN 0 ELSE RSign(v)
SideOf(p, u) == LET s == {Amount(Height(p, u[i])) : i \in 1..3} IN IF {-1, 1} \subseteq s THEN 2 ELSE IF 1 \in s THEN 0 ELSE IF -1 \in s THEN 1 ELSE 3
(* the part of a polygon on one side of a plane: twice its area as a vector *)
RECURSIVE ClipFrom(_, _, _, _)
ClipFrom(poly, p, sg, i) == IF i > Len(poly) THEN <<>> ELSE
   LET x == poly[i] y == poly[(i % Len(poly)) + 1] h == RMul(sg, Height(p, x)) k == RMul(sg, Height(p, y)) keep == IF RLe(0, h) THEN <<x>> ELSE <<>>
       cut == IF RLt(RMul(h, k), 0) THEN <<VAdd(x, VScale(VSub(y, x), RDiv(h, RSub(h, k))))>> ELSE <<>> IN keep \o cut \o ClipFrom(poly, p, sg, i + 1)
Clip(poly, p, sg) == Strict(ClipFrom(poly, p, sg, 1))
RECURSIVE Fan(_, _)
Fan(poly, i) == IF i >= Len(poly) THEN <<0, 0, 0>> ELSE VAdd(Cross(VSub(poly[i], poly[1]), VSub(poly[i + 1], poly[1])), Fan(poly, i + 1))
RECURSIVE SumV(_)
SumV(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE VAdd(Head(s), SumV(Tail(s)))
SplitOk(t, p, r) == (* pieces as <<triangle, over?>> *)
   /\ Len(r) \in 1..3
   /\ \A k \in 1..Len(r) : LET u == r[k][1] sg == IF r[k][2] THEN 1 ELSE -1 IN /\ \A i \in 1..3 : RLe(R("-2e-5"), RMul(sg, Height(p, u[i]))) /\ SameTol(OnFace(t, u[i]), u[i], "1e-6", "1e-6") /\ \A j \in 1..3 : RLe(R("-1e-6"), Bary(t, u[i])[j])
                                /\ RLt(R("1e-9"), FArea2(u))
   /\ \A sg \in {1, -1} : LET mine == [k \in 1..Len(r) |-> IF r[k][2] = (sg = 1) THEN VNeg(FNorm(r[k][1])) ELSE <<0, 0, 0>>] IN SameTol(SumV(mine), Fan(Clip(t, p, sg), 2), "1e-6", "1e-6")
(* separating directions of a triangle and a box <<low corner, size>> *)
BoxAxes(t) == <<FNorm(t), <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>> \o [k \in 1..9 |-> Cross(Axis(((k - 1) \div 3) + 1), VSub(t[((k - 1) % 3) + 1], t[(k % 3) + 1]))]
Proj(ax, ps) == LET d == Strict([i \in 1..Len(ps) |-> Dot(ax, ps[i])]) lo == CHOOSE i \in 1..Len(d) : \A j \in 1..Len(d) : RLe(d[i], d[j]) hi == CHOOSE i \in 1..Len(d) : \A j \in 1..Len(d) : RLe(d[j], d[i]) IN <<d[lo], d[hi]>>
Corners8(b) == [k \in 1..8 |-> VAdd(b[1], <<IF k % 2 = 0 THEN b[2][1] ELSE 0, IF (k \div 2) % 2 = 0 THEN b[2][2] ELSE 0, IF k > 4 THEN b[2][3] ELSE 0>>)]
AxisGap(t, b, ax) == IF RLt(Norm(ax), R("1e-6")) THEN -1 ELSE LET u == Unit(ax) x == Proj(u, t) y == Proj(u, Corners8(b)) IN RMax(RSub(x[1], y[2]), RSub(y[1], x[2]))
Apart(t, b) == LET g == Strict([k \in 1..13 |-> AxisGap(t, b, BoxAxes(t)[k])]) IN g[CHOOSE i \in 1..13 : \A j \in 1..13 : RLe(g[j], g[i])]     \* widest gap
(* contact features in a direction, seen through a map: the face, an edge or a point *)
SupportOk(t, n0, x, max, r) ==
   LET n == MV(MT(x[1]), n0) top == CHOOSE i \in 1..3 : \A j \in 1..3 : RLt(Dot(n, t[j]), Dot(n, t[i])) \/ (REq(Dot(n, t[j]), Dot(n, t[i])) /\ i <= j)
       f == Dot(FPlane(t, FALSE)[1], n) Im(i) == AX(x, t[i]) Nx(i) == (i % 3) + 1 D(i) == RAbs(Dot(Unit(VSub(t[i], t[Nx(i)])), n))
       Near1(v, k) == RLt(RAbs(RSub(v, k)), R("1e-6")) Is(s) == SameTol(r, s, "1e-8", "1e-9") Edge(i) == Is(SubSeq(<<Im(i), Im(Nx(i))>>, 1, IF max < 2 THEN max ELSE 2))
       Mine == {i \in 1..3 : i = top \/ Nx(i) = top} FaceR == Is(SubSeq(<<Im(1), Im(2), Im(3)>>, 1, IF max < 3 THEN max ELSE 3)) Rest == IF \E i \in Mine : RLt(D(i), R("0.05")) THEN (\E i \in Mine : RLt(D(i), R("0.05")) /\ Edge(i)) ELSE Is(<<Im(top)>>) IN
   IF max = 0 THEN r = <<>> ELSE IF Near1(f, R("0.98")) \/ \E i \in 1..3 : Near1(D(i), R("0.05")) THEN TRUE ELSE IF RLt(R("0.98"), f) THEN FaceR ELSE Rest
FcQ(f, t, a) == CASE f = "plane" -> <<FPlane(t, FALSE), FPlane(t, TRUE)>> [] f = "area" -> <<RDiv(RSqrt(FArea2(t)), 2), FArea2(t)>> [] f = "median" -> VScale(VAdd(VAdd(t[1], t[2]), t[3]), RDiv(1, 3)) [] f = "degenerate" -> RLt(FArea2(t), R("1e-10"))
  [] f = "side" -> SideOf(FPlane(t, a[2]), a[1]) [] f = "closest" -> Closest(t, a[1]) [] f = "box" -> (LET lo == VMin(VMin(t[1], t[2]), t[3]) IN <<lo, VSub(VMax(VMax(t[1], t[2]), t[3]), lo)>>)
  [] f = "range" -> Proj(a[1], [i \in 1..3 |-> AX(a[2], t[i])])
FcOk(f, t, a, r) == CASE f = "split" -> (IF RLt(FArea2(t), R("1e-10")) THEN r = <<>> ELSE SplitOk(t, a[1], r))
  [] f = "hits" -> (LET g == Apart(t, a[1]) IN IF RLt(R("1e-6"), g) THEN r = <<FALSE, FALSE>> ELSE IF RLt(g, R("-1e-6")) THEN r = <<TRUE, TRUE>> ELSE TRUE)
  [] f = "random" -> (\A k \in 1..Len(r) : SameTol(OnFace(t, r[k]), r[k], "1e-6", "1e-6") /\ \A j \in 1..3 : RLe(R("-1e-6"), Bary(t, r[k])[j])) /\ \E k \in 1..Len(r) : \A j \in 1..3 : RLt(R("1e-3"), Bary(t, r[k])[j])
  [] f = "support" -> SupportOk(t, a[1], a[2], a[3], r) [] OTHER -> SameTol(r, FcQ(f, t, a), "1e-8", "1e-9")
JOk(e) == LET a == SubSeq(e.a, 4, Len(e.a)) IN IF e.a[1] = "p" THEN PjOk(e.a[2], e.a[3], a, e.r) ELSE FcOk(e.a[2], e.a[3], a, e.r)
JExp(e) == LET a == SubSeq(e.a, 4, Len(e.a)) IN IF e.a[1] = "p" THEN PjQ(e.a[2], e.a[3], a) ELSE IF e.a[2] \in {"split", "hits", "random", "support"} THEN "any admissible answer" ELSE FcQ(e.a[2], e.a[3], a)
=============================================================================
