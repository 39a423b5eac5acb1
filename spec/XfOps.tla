-------------------------------- MODULE XfOps --------------------------------
(* Matrices are sequences of rows, an affine map is <<matrix, origin>>, quaternions are <<x, y, z, w>>, planes <<normal, distance>>. *)
(* A 2D transform is reported as its three columns.                                                                                 *)
EXTENDS GeoOps
Mat(n, F(_, _)) == Strict([i \in 1..n |-> Strict([j \in 1..n |-> F(i, j)])])
Col(m, j) == Strict([i \in 1..Len(m) |-> m[i][j]])
MT(m) == LET F(i, j) == m[j][i] IN Mat(Len(m), F)
MMul(x, y) == LET F(i, j) == Dot(x[i], Col(y, j)) IN Mat(Len(x), F)
MV(m, v) == Strict([i \in 1..Len(m) |-> Dot(m[i], v)])
MMap(G(_, _), x, y) == LET F(i, j) == G(x[i][j], y[i][j]) IN Mat(Len(x), F)
MScale(m, k) == LET F(i, j) == RMul(m[i][j], k) IN Mat(Len(m), F)
Diag(d) == LET F(i, j) == IF i = j THEN d[i] ELSE 0 IN Mat(Len(d), F)
Ident(n) == LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mat(n, F)
Det(m) == IF Len(m) = 2 THEN RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1])) ELSE Dot(m[1], Cross(m[2], m[3]))
MInv(m) == IF Len(m) = 2 THEN MScale(<<<<m[2][2], RNeg(m[1][2])>>, <<RNeg(m[2][1]), m[1][1]>>>>, RDiv(1, Det(m)))
           ELSE MScale(MT(<<Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2])>>), RDiv(1, Det(m)))
ColLens(m) == Strict([j \in 1..Len(m) |-> Norm(Col(m, j))])
RowLens(m) == Strict([i \in 1..Len(m) |-> Norm(m[i])])
Axis(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
RotM(k, t) == MT(<<Rot3(Axis(1), k, t), Rot3(Axis(2), k, t), Rot3(Axis(3), k, t)>>)
RotM2(t) == LET c == RFun("cos", t) s == RFun("sin", t) IN <<<<c, RNeg(s)>>, <<s, c>>>>
Order(s) == CASE s = "xyz" -> <<1, 2, 3>> [] s = "xzy" -> <<1, 3, 2>> [] s = "yzx" -> <<2, 3, 1>> [] s = "yxz" -> <<2, 1, 3>> [] s = "zxy" -> <<3, 1, 2>> [] s = "zyx" -> <<3, 2, 1>> [] OTHER -> <<2, 1, 3>>
EulerM(s, e) == LET o == Order(s) A(k) == RotM(Axis(o[k]), e[o[k]]) IN MMul(A(1), MMul(A(2), A(3)))
(* columns made orthonormal, first to last *)
RECURSIVE Gram(_, _)
Gram(cols, done) == IF cols = <<>> THEN done ELSE
    LET c == Head(cols) p == [k \in 1..Len(done) |-> VScale(done[k], Dot(done[k], c))]
        RECURSIVE Minus(_, _)
        Minus(v, k) == IF k > Len(done) THEN v ELSE Minus(VSub(v, p[k]), k + 1) IN Gram(Tail(cols), Append(done, Unit(Minus(c, 1))))
Ortho(m) == MT(Gram(MT(m), <<>>))
Signed(m, v) == IF RLt(Det(m), 0) THEN VNeg(v) ELSE v
RotPart(m) == LET o == Ortho(m) IN IF RLt(Det(m), 0) THEN MScale(o, -1) ELSE o       \* m = rotation * signed scale
ScaleOf(m) == Signed(m, ColLens(m))
(* --- quaternions --- *)
QV(q) == <<q[1], q[2], q[3]>>
QOf(v, w) == Strict(<<v[1], v[2], v[3], w>>)
QMul(p, q) == QOf(VAdd(VAdd(VScale(QV(q), p[4]), VScale(QV(p), q[4])), Cross(QV(p), QV(q))), RSub(RMul(p[4], q[4]), Dot(QV(p), QV(q))))
QConj(q) == QOf(VNeg(QV(q)), q[4])
QAxis(k, t) == LET h == RDiv(t, 2) IN QOf(VScale(k, RFun("sin", h)), RFun("cos", h))
QRot(q, v) == QV(QMul(QMul(q, QOf(v, 0)), QConj(q)))
QM(q) == LET u == Unit(q) IN MT(<<QRot(u, Axis(1)), QRot(u, Axis(2)), QRot(u, Axis(3))>>)
(* the quaternion of a rotation, from its largest component; either sign will do *)
MQ(m) == LET s(k) == RAdd(1, IF k = 4 THEN RSum(<<m[1][1], m[2][2], m[3][3]>>) ELSE RSub(RMul(2, m[k][k]), RSum(<<m[1][1], m[2][2], m[3][3]>>)))
             k == CHOOSE k \in 1..4 : \A j \in 1..4 : RLe(s(j), s(k)) r == RMul(2, RSqrt(s(k)))
             d(i, j) == RDiv(RSub(m[i][j], m[j][i]), r) p(i, j) == RDiv(RAdd(m[i][j], m[j][i]), r) h == RDiv(r, 4) IN
         Strict(CASE k = 4 -> <<d(3, 2), d(1, 3), d(2, 1), h>> [] k = 1 -> <<h, p(1, 2), p(1, 3), d(3, 2)>> [] k = 2 -> <<p(1, 2), h, p(2, 3), d(1, 3)>> [] OTHER -> <<p(1, 3), p(2, 3), h, d(2, 1)>>)
QArc(p, q, w) == LET c == RMax(-1, RMin(1, Dot(p, q))) o == RFun("acos", c) s == RFun("sin", o) IN
    IF RLt(RSub(1, c), R("1e-9")) THEN Lerp(p, q, w) ELSE VAdd(VScale(p, RDiv(RFun("sin", RMul(RSub(1, w), o)), s)), VScale(q, RDiv(RFun("sin", RMul(w, o)), s)))
QSlerp(p, q, w) == QArc(p, IF RLt(Dot(p, q), 0) THEN VNeg(q) ELSE q, w)                     \* the shorter way round
Shaky(p, q) == RLt(RAbs(Dot(p, q)), R("1e-6"))                                              \* half a turn apart: both ways are as short
QNi(p, q, w) == IF RLt(R("0.9999"), RAbs(Dot(p, q))) THEN p ELSE QArc(p, q, w)              \* nearly the same or opposite: stays
(* --- affine maps, any dimension --- *)
AMul(x, y) == <<MMul(x[1], y[1]), VAdd(MV(x[1], y[2]), x[2])>>
AX(x, p) == VAdd(MV(x[1], p), x[2])
ARigid(x) == LET t == MT(x[1]) IN <<t, VNeg(MV(t, x[2]))>>
AInv(x) == LET t == MInv(x[1]) IN <<t, VNeg(MV(t, x[2]))>>
AXInv(x, p) == MV(MT(x[1]), VSub(p, x[2]))
A2(t) == <<MT(<<t[1], t[2]>>), t[3]>>
T2(x) == MT(x[1]) \o <<x[2]>>
Zero(n) == [i \in 1..n |-> 0]
Vertex(b, s) == Strict([i \in 1..Len(b[1]) |-> IF s[i] = 1 THEN RAdd(b[1][i], b[2][i]) ELSE b[1][i]])
(* the smallest box around the images of the corners *)
BoxImg(F(_), b) == LET n == Len(b[1]) S == [1..n -> 0..1] P == Strict([s \in S |-> F(Vertex(b, s))])
                       lo(i) == P[CHOOSE s \in S : \A q \in S : RLe(P[s][i], P[q][i])][i] hi(i) == P[CHOOSE s \in S : \A q \in S : RLe(P[q][i], P[s][i])][i] IN
                   Strict(<<Strict([i \in 1..n |-> lo(i)]), Strict([i \in 1..n |-> RSub(hi(i), lo(i))])>>)
AngleOf(c) == RAtan2(c[2], c[1])
Wrap(t) == LET p == RMul(2, R("3.14159265358979323846")) IN RSub(t, RMul(p, RFun("floor", RAdd(RDiv(t, p), R("0.5")))))
Look(d, up, front) == LET z == IF front THEN Unit(d) ELSE VNeg(Unit(d)) x == Unit(Cross(up, z)) IN MT(<<x, Cross(z, x), z>>)
(* --- answers --- *)
BasQ(f, x, a) == CASE
     f = "mul" -> MMul(x, a[1]) [] f = "square" -> MMul(x, x) [] f = "add" -> MMap(RAdd, x, a[1]) [] f = "sub" -> MMap(RSub, x, a[1]) [] f = "smul" -> MScale(x, a[1])
  [] f = "det" -> Det(x) [] f = "inverse" -> MInv(x) [] f = "transpose" -> MT(x) [] f = "tmul" -> MMul(MT(x), a[1])
  [] f = "xform" -> MV(x, a[1]) [] f = "tdot" -> MV(MT(x), a[1]) [] f = "xformi" -> <<MV(x, a[1]), MV(MT(x), a[1])>>
  [] f = "normal_xform" -> LET n == MT(MInv(x)) IN <<n, Unit(MV(n, a[1]))>>
  [] f = "from_axis" -> RotM(a[1], a[2]) [] f = "from_quat" -> QM(a[1]) [] f = "from_euler" -> EulerM(a[1], a[2])
  [] f = "rotated" -> MMul(RotM(a[1], a[2]), x) [] f = "rotated_local" -> MMul(x, RotM(a[1], a[2]))
  [] f = "rotatede" -> MMul(EulerM("yxz", a[1]), x) [] f = "rotatedq" -> MMul(QM(a[1]), x)
  [] f = "align" -> LET k == Cross(a[1], a[2]) IN IF IsZero(k) THEN x ELSE MMul(RotM(Unit(k), RAtan2(Norm(k), Dot(a[1], a[2]))), x)
  [] f = "scaled" -> MMul(Diag(a[1]), x) [] f = "scaled_local" -> MMul(x, Diag(a[1]))
  [] f = "uniform" -> LET l == RowLens(x) m == RDiv(RSum(l), 3) IN <<MScale(MMul(Diag([i \in 1..3 |-> RDiv(1, l[i])]), x), m), m>>
  [] f = "scale" -> <<ScaleOf(x), ColLens(x), Signed(x, RowLens(x))>>
  [] f = "set_axis_scale" -> MMul(RotM(a[1], a[2]), Diag(a[3])) [] f = "set_euler_scale" -> MMul(EulerM("yxz", a[1]), Diag(a[2])) [] f = "set_quat_scale" -> MMul(QM(a[1]), Diag(a[2]))
  [] f = "diag" -> <<Diag(a[1]), [i \in 1..3 |-> x[i][i]], Diag(<<0, 0, 0>>), Ident(3)>>
  [] f = "slerp" -> MMul(Diag(Lerp(RowLens(x), RowLens(a[1]), a[2])), QM(QSlerp(MQ(x), MQ(a[1]), a[2]))) [] f = "lerp" -> [i \in 1..3 |-> Lerp(x[i], a[1][i], a[2])]
  [] f = "ortho" -> Ortho(x) [] f = "orthog" -> MMul(Ortho(x), Diag(ColLens(x)))
  [] f = "look" -> Look(a[1], a[2], a[3])
  [] f = "parts" -> LET k == a[1] + 1 v == a[2] r == [x EXCEPT ![k] = v] c == LET F(i, j) == IF j = k THEN v[i] ELSE x[i][j] IN Mat(3, F) IN <<x[k], Col(x, k), r, c, x, x>>
BTol(r, e) == SameTol(r, e, "1e-6", "1e-6")
Flat(m) == m[1] \o m[2] \o m[3]
IsRot(m) == BTol(MMul(m, MT(m)), Ident(3)) /\ BTol(Det(m), 1)
Diagonal(m) == \A i, j \in 1..3 : i = j \/ RLt(RAbs(m[i][j]), R("1e-4"))
BasOk(f, x, a, r) == CASE
     f = "axis_angle" -> SameTol(RotM(r[1], r[2]), x, "1e-5", "1e-5") /\ SameTol(Norm(r[1]), 1, "1e-5", "1e-5")
  [] f = "quat" -> BTol(QM(r), x) /\ BTol(Norm(r), 1)
  [] f = "euler" -> SameTol(EulerM(a[1], r), x, "1e-4", "1e-4")
  [] f = "rot_euler" -> SameTol(EulerM("yxz", r), RotPart(x), "1e-4", "1e-4")
  [] f = "rot_axis" -> SameTol(RotM(r[1], r[2]), RotPart(x), "1e-5", "1e-5")
  [] f = "rot_axis_local" -> SameTol(RotM(r[1], r[2]), MT(RotPart(MT(x))), "1e-5", "1e-5")
  [] f = "rot_quat" -> BTol(QM(r), RotPart(x))
  (* columns at right angles: a rotation or reflection times positive lengths *)
  [] f = "decomp" -> BTol(MMul(r[1], Diag(r[2])), x) /\ BTol(MMul(r[1], MT(r[1])), Ident(3)) /\ \A i \in 1..3 : RLt(0, r[2][i])
  (* every column keeps its direction; the axes themselves are scaled as given *)
  [] f = "scaled_orth" -> (\A j \in 1..3 : SameTol(Cross(Col(r, j), Col(x, j)), <<0, 0, 0>>, "1e-6", "1e-6")) /\ (SameX(x, Ident(3)) => BTol(r, Diag(a[1])))
  [] f = "approx" -> ApproxOk(Flat(x), Flat(a[1]), r[1]) /\ r[2] = VEq(Flat(x), Flat(a[1])) /\ r[3] = ~VEq(Flat(x), Flat(a[1]))
  [] f = "kind" -> LET o == Flat(MMul(x, MT(x))) id == Flat(Ident(3)) off == <<x[1][2], x[1][3], x[2][1], x[2][3], x[3][1], x[3][2]>> up == <<x[1][2], x[1][3], x[2][3]>> dn == <<x[2][1], x[3][1], x[3][2]>> IN
        ApproxOk(o, id, r[1]) /\ ApproxOk(off, Zero(6), r[2]) /\ ApproxOk(o \o <<Det(x)>>, id \o <<1>>, r[3]) /\ ApproxOk(up, dn, r[4])
  (* twenty-four turns of the axes onto the axes, each with an index of its own *)
  [] f = "orth_index" -> r[1] \in 0..23 /\ r[4] = a[1] /\ SameX(r[2], x) /\ IsRot(r[3]) /\ (\A i, j \in 1..3 : r[3][i][j] \in {-1, 0, 1})
  [] f = "diagonalize" -> Diagonal(r[1]) /\ SameTol(MMul(r[2], MMul(x, MT(r[2]))), r[1], "1e-4", "1e-4") /\ SameTol(MMul(r[2], MT(r[2])), Ident(3), "1e-5", "1e-5")
  [] f = "from_z" -> BTol(MMul(r, MT(r)), Ident(3)) /\ BTol(r[3], a[1])
  [] f = "slerp" -> Shaky(MQ(x), MQ(a[1])) \/ SameTol(r, BasQ(f, x, a), "1e-5", "1e-5")
  [] f \in {"align", "uniform"} -> SameTol(r, BasQ(f, x, a), "1e-5", "1e-5")
  [] OTHER -> BTol(r, BasQ(f, x, a))
QuaQ(f, x, a) == CASE
     f = "mul" -> <<QMul(x, a[1]), QMul(x, x)>> [] f = "add" -> VAdd(x, a[1]) [] f = "sub" -> VSub(x, a[1]) [] f = "neg" -> VNeg(x) [] f = "smul" -> VScale(x, a[1]) [] f = "sdiv" -> VScale(x, RDiv(1, a[1]))
  [] f = "vmul" -> QMul(x, QOf(a[1], 0)) [] f = "dot" -> Dot(x, a[1]) [] f = "length" -> <<Norm(x), LenSq(x)>> [] f = "normal" -> Unit(x) [] f = "inverse" -> QConj(x)
  [] f = "xform" -> QRot(x, a[1]) [] f = "from_axis" -> QAxis(a[1], a[2])
  [] f = "slerp" -> QSlerp(x, a[1], a[2]) [] f = "slerpni" -> QNi(x, a[1], a[2])
  [] f = "cubic" -> QNi(QSlerp(x, a[1], a[4]), QNi(a[2], a[3], a[4]), RMul(2, RMul(a[4], RSub(1, a[4]))))
  [] f = "explog" -> <<LET n == Norm(QV(x)) IN IF REq(n, 0) THEN <<0, 0, 0, 1>> ELSE QAxis(Unit(QV(x)), n), QOf(IF IsZero(QV(x)) THEN <<0, 0, 0>> ELSE VScale(Unit(QV(x)), RMul(2, RAtan2(Norm(QV(x)), x[4]))), 0)>>
  [] f = "parts" -> <<x[a[1] + 1], Put(x, a[1] + 1, a[2]), <<0, 0, 0, 1>>>>
QuaOk(f, x, a, r) == CASE
     f = "is_normal" -> ApproxOk(<<LenSq(x)>>, <<1>>, r)
  [] f = "axis_angle" -> LET y == QM(x) IN SameTol(RotM(r[1], r[2]), y, "1e-5", "1e-5") /\ SameTol(RotM(r[3], r[4]), y, "1e-5", "1e-5")
  [] f = "from_euler" -> BTol(QM(r[1]), EulerM("yxz", a[1])) /\ BTol(QM(r[2]), EulerM("xyz", a[1])) /\ BTol(Norm(r[1]), 1) /\ BTol(Norm(r[2]), 1)
  [] f = "euler" -> SameTol(EulerM("yxz", r[1]), QM(x), "1e-4", "1e-4") /\ SameTol(EulerM("xyz", r[2]), QM(x), "1e-4", "1e-4")
  (* the angle of the turn from one to the other *)
  [] f = "angle_to" -> LET c == RAbs(Dot(x, a[1])) IN SameTol(r, RMul(2, RFun("acos", RMin(1, c))), "1e-5", "1e-5")
  [] f \in {"slerp", "slerpni"} -> (f = "slerp" /\ Shaky(x, a[1])) \/ SameTol(r, QuaQ(f, x, a), "1e-5", "1e-5")
  [] f = "cubic" -> Shaky(x, a[1]) \/ SameTol(r, QuaQ(f, x, a), "1e-4", "1e-4")
  (* both ends are met, and about one axis it is the cubic of the angles (given as the last argument, when there is one) *)
  [] f = "scubic" -> SameTol(Norm(r), 1, "1e-5", "1e-5") /\ (REq(a[4], 0) => SameTol(QM(r), QM(x), "1e-4", "1e-4")) /\ (REq(a[4], 1) => SameTol(QM(r), QM(a[1]), "1e-4", "1e-4"))
        /\ (Len(a) > 4 => LET t == a[6] IN SameTol(QM(r), RotM(a[5], Cubic(t[1], t[2], t[3], t[4], a[4])), "1e-4", "1e-4"))
  [] f = "explog" -> SameTol(r, QuaQ(f, x, a), "1e-5", "1e-5")
  [] f = "approx" -> ApproxOk(x, a[1], r[1]) /\ r[2] = VEq(x, a[1]) /\ r[3] = ~VEq(x, a[1])
  (* the shortest turn that takes the first vector to the second *)
  [] f = "arc" -> SameTol(Norm(r), 1, "1e-5", "1e-5") /\ SameTol(QRot(r, a[1]), a[2], "1e-4", "1e-4") /\ (RLt(R("-0.99"), Dot(a[1], a[2])) => SameTol(RMul(2, RMul(r[4], r[4])), RAdd(1, Dot(a[1], a[2])), "1e-5", "1e-5"))
  [] OTHER -> BTol(r, QuaQ(f, x, a))
(* --- planes: the points p with normal . p = distance --- *)
Height(x, p) == RSub(Dot(x[1], p), x[2])
Slack(v, e) == RLt(RAbs(v), R(e))
PNorm(x) == LET l == Norm(x[1]) IN IF REq(l, 0) THEN <<<<0, 0, 0>>, 0>> ELSE <<Unit(x[1]), RDiv(x[2], l)>>
Tri(p, q, s) == LET n == Unit(Cross(VSub(p, s), VSub(p, q))) IN <<n, Dot(n, p)>>
PlaOk(f, x, a, r) == CASE
     f = "normal" -> BTol(r, PNorm(x))
  [] f = "dist" -> LET h == Height(x, a[1]) m == RAbs(h) IN Same(r[1], h) /\ (r[2] => ~RLt(h, R("-1e-9"))) /\ (RLt(R("1e-9"), h) => r[2])
        /\ (r[3] => Slack(h, "1.1e-5")) /\ (Slack(h, "9e-6") => r[3]) /\ (r[4] => Slack(h, "0.500001")) /\ (Slack(h, "0.499999") => r[4])
  [] f = "project" -> BTol(r, VSub(a[1], VScale(x[1], Height(x, a[1]))))
  [] f = "center" -> BTol(r[1], VScale(x[1], x[2])) /\ BTol(r[2], VScale(x[1], x[2])) /\ BTol(Norm(r[3]), 1) /\ BTol(Dot(r[3], x[1]), 0) /\ BTol(r[4], x[1]) /\ BTol(r[5], <<VNeg(x[1]), RNeg(x[2])>>)
  [] f = "set_normal" -> BTol(r, <<a[1], x[2]>>)
  [] f = "meet3" -> LET d == Dot(Cross(x[1], a[1][1]), a[2][1]) IN (r[1] => ~Slack(d, "9e-6")) /\ (~Slack(d, "1.1e-5") => r[1])
        /\ (r[1] => \A p \in {1, 2, 3} : SameTol(Height(IF p = 1 THEN x ELSE a[p - 1], r[2]), 0, "1e-5", "1e-5"))
  [] f \in {"ray", "segment"} -> LET dir == IF f = "ray" THEN a[2] ELSE VSub(a[2], a[1]) d == Dot(x[1], dir) t == RDiv(RNeg(Height(x, a[1])), d)
                                     In(lo, hi) == RLe(R(lo), t) /\ (f = "ray" \/ RLe(t, R(hi))) IN
        IF Slack(d, "9e-6") THEN ~r[1] ELSE (r[1] => In("-1.1e-5", "1.000011")) /\ ((In("-9e-6", "1.000009") /\ ~Slack(d, "1.1e-5")) => r[1]) /\ (r[1] => BTol(r[2], VAdd(a[1], VScale(dir, t))))
  [] f = "approx" -> LET y == a[1] u == x[1] \o <<x[2]>> v == y[1] \o <<y[2]>> IN ApproxOk(u, v, r[1]) /\ (r[2] => ((\A i \in 1..4 : ~Far(u[i], v[i])) \/ (\A i \in 1..4 : ~Far(u[i], RNeg(v[i])))))
        /\ (((\A i \in 1..4 : Near(u[i], v[i])) \/ (\A i \in 1..4 : Near(u[i], RNeg(v[i])))) => r[2]) /\ r[3] = VEq(u, v) /\ r[4] = ~VEq(u, v)
  [] f = "make" -> BTol(r[1], <<a[2], Dot(a[2], a[1])>>) /\ LET t == Tri(a[1], a[2], a[3]) IN BTol(r[2], t) /\ BTol(r[3], <<VNeg(t[1]), RNeg(t[2])>>)
(* --- transforms --- *)
Sgn2(m) == IF RLt(Det(m), 0) THEN -1 ELSE 1
Rs(t, s) == MMul(RotM2(t), Diag(s))
Skewed(t, s, k) == MT(<<VScale(<<RFun("cos", t), RFun("sin", t)>>, s[1]), VScale(<<RNeg(RFun("sin", RAdd(t, k))), RFun("cos", RAdd(t, k))>>, s[2])>>)
TraQ(f, v, a) == LET x == A2(v) m == x[1] org == x[2] Same2(b) == T2(<<b, org>>) IN CASE
     f = "mul" -> <<T2(AMul(x, A2(a[1]))), T2(AMul(x, x))>> [] f = "smul" -> [k \in 1..3 |-> VScale(v[k], a[1])] [] f = "det" -> Det(m)
  [] f = "inverse" -> T2(ARigid(x)) [] f = "ainverse" -> T2(AInv(x))
  [] f = "xform" -> <<AX(x, a[1]), AXInv(x, a[1]), MV(m, a[1]), MV(MT(m), a[1]), MV(m, a[1])>> [] f = "xformi" -> <<AX(x, a[1]), AXInv(x, a[1]), MV(m, a[1]), MV(MT(m), a[1])>>
  [] f = "xformr" -> LET F(p) == AX(x, p) G(p) == AXInv(x, p) IN <<BoxImg(F, a[1]), BoxImg(G, a[1])>>
  [] f \in {"xforma", "xformai"} -> <<[k \in 1..Len(a[1]) |-> AX(x, a[1][k])], [k \in 1..Len(a[1]) |-> AXInv(x, a[1][k])]>>
  [] f = "set_rotation" -> Same2(Rs(a[1], <<Norm(v[1]), RMul(Sgn2(m), Norm(v[2]))>>)) [] f = "set_scale" -> Same2(MMul(MT(<<Unit(v[1]), Unit(v[2])>>), Diag(a[1])))
  [] f = "set_skew" -> <<v[1], VScale(Rot2(Unit(v[1]), RAdd(R("1.57079632679489661923"), a[1])), RMul(Sgn2(m), Norm(v[2]))), v[3]>>
  [] f = "set_origin" -> <<v[1], v[2], a[1]>> [] f = "set_rs" -> Same2(Rs(a[1], a[2])) [] f = "set_rss" -> Same2(Skewed(a[1], a[2], a[3]))
  [] f = "make" -> <<T2(<<RotM2(a[1]), a[4]>>), T2(<<Skewed(a[1], a[2], a[3]), a[4]>>), <<<<1, 0>>, <<0, 1>>, <<0, 0>>>>, <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>>>
  [] f = "rotated" -> T2(AMul(<<RotM2(a[1]), Zero(2)>>, x)) [] f = "rotated_local" -> T2(AMul(x, <<RotM2(a[1]), Zero(2)>>))
  [] f = "scaled" -> T2(AMul(<<Diag(a[1]), Zero(2)>>, x)) [] f = "scaled_basis" -> Same2(MMul(Diag(a[1]), m)) [] f = "scaled_local" -> T2(AMul(x, <<Diag(a[1]), Zero(2)>>))
  [] f = "translate" -> LET y == T2(<<m, VAdd(org, a[1])>>) IN <<y, y>> [] f = "translate_local" -> LET y == T2(AMul(x, <<Ident(2), a[1]>>)) IN <<y, y>>
  [] f = "untranslated" -> <<v[1], v[2], <<0, 0>>>> [] f = "ortho" -> Same2(Ortho(m))
  [] f = "look" -> Same2(RotM2(AngleOf(VSub(a[1], org))))
  [] f = "interp" -> LET y == A2(a[1]) t == AngleOf(v[1]) d == Wrap(RSub(AngleOf(a[1][1]), t)) S(z) == <<Norm(Col(z, 1)), RMul(Sgn2(z), Norm(Col(z, 2)))>> IN
        T2(<<Rs(RAdd(t, RMul(a[2], d)), Lerp(S(m), S(y[1]), a[2])), Lerp(org, y[2], a[2])>>)
  [] f = "parts" -> <<v[a[1] + 1], Put(v, a[1] + 1, a[2])>>
TraOk(f, v, a, r) == CASE
     f = "get" -> LET m == A2(v)[1] u == Dot(Unit(v[1]), VScale(Unit(v[2]), Sgn2(m))) IN SameAngle(r[1], AngleOf(v[1])) /\ BTol(r[2], <<Norm(v[1]), RMul(Sgn2(m), Norm(v[2]))>>) /\ BTol(RFun("sin", RNeg(r[3])), u) /\ RLe(RAbs(r[3]), R("1.5708")) /\ BTol(r[4], v[3])
  [] f = "approx" -> LET y == a[1] IN ApproxOk(Flat(v), Flat(y), r[1]) /\ r[2] = VEq(Flat(v), Flat(y)) /\ r[3] = ~VEq(Flat(v), Flat(y))
  [] OTHER -> BTol(r, TraQ(f, v, a))
AFlat(x) == Flat(x[1]) \o x[2]
AffQ(f, x, a) == CASE
     f = "mul" -> <<AMul(x, a[1]), AMul(x, x)>> [] f = "smul" -> <<MScale(x[1], a[1]), VScale(x[2], a[1])>> [] f = "inverse" -> ARigid(x) [] f = "ainverse" -> AInv(x)
  [] f = "inverse_xform" -> AMul(ARigid(x), a[1]) [] f \in {"xform", "xformi"} -> <<AX(x, a[1]), AXInv(x, a[1])>>
  [] f = "xformb" -> LET F(p) == AX(x, p) G(p) == AXInv(x, p) IN <<BoxImg(F, a[1]), BoxImg(G, a[1])>>
  (* a plane is carried along with its points *)
  [] f = "xformp" -> LET Go(y) == LET n == Unit(MV(MT(MInv(y[1])), a[1][1])) IN <<n, Dot(n, AX(y, VScale(a[1][1], a[1][2])))>> IN <<Go(x), Go(AInv(x))>>
  [] f \in {"xforma", "xformai"} -> <<[k \in 1..Len(a[1]) |-> AX(x, a[1][k])], [k \in 1..Len(a[1]) |-> AXInv(x, a[1][k])]>>
  [] f = "rotated" -> AMul(<<RotM(a[1], a[2]), Zero(3)>>, x) [] f = "rotated_local" -> AMul(x, <<RotM(a[1], a[2]), Zero(3)>>) [] f = "rotate_basis" -> <<MMul(RotM(a[1], a[2]), x[1]), x[2]>>
  [] f = "scaled" -> AMul(<<Diag(a[1]), Zero(3)>>, x) [] f = "scaled_local" -> AMul(x, <<Diag(a[1]), Zero(3)>>) [] f = "scale_basis" -> <<MMul(Diag(a[1]), x[1]), x[2]>>
  [] f = "translated" -> <<x[1], VAdd(x[2], a[1])>> [] f = "translated_local" -> LET y == AMul(x, <<Ident(3), a[1]>>) IN <<y, y>>
  [] f = "look" -> <<<<Look(VSub(a[1], x[2]), a[2], FALSE), x[2]>>, <<Look(VSub(a[1], a[3]), a[2], FALSE), a[3]>>>>
  [] f = "ortho" -> <<Ortho(x[1]), x[2]>> [] f = "orthog" -> <<MMul(Ortho(x[1]), Diag(ColLens(x[1]))), x[2]>>
  [] f = "interp" -> LET y == a[1] w == a[2] IN <<MMul(QM(QSlerp(MQ(RotPart(x[1])), MQ(RotPart(y[1])), w)), Diag(Lerp(ScaleOf(x[1]), ScaleOf(y[1]), w))), Lerp(x[2], y[2], w)>>
  [] f = "make" -> <<x, <<x[1], x[2]>>, <<Ident(3), Zero(3)>>>>
AffOk(f, x, a, r) == CASE
     f = "approx" -> LET y == a[1] IN ApproxOk(AFlat(x), AFlat(y), r[1]) /\ r[2] = VEq(AFlat(x), AFlat(y)) /\ r[3] = ~VEq(AFlat(x), AFlat(y))
  [] f = "interp" -> Shaky(MQ(RotPart(x[1])), MQ(RotPart(a[1][1]))) \/ SameTol(r, AffQ(f, x, a), "1e-5", "1e-5")
  [] OTHER -> BTol(r, AffQ(f, x, a))
XOk(e) == LET t == e.a[1] f == e.a[2] x == e.a[3] a == SubSeq(e.a, 4, Len(e.a)) IN
  CASE t = "b" -> BasOk(f, x, a, e.r) [] t = "q" -> QuaOk(f, x, a, e.r) [] t = "p" -> PlaOk(f, x, a, e.r) [] t = "t" -> TraOk(f, x, a, e.r) [] OTHER -> AffOk(f, x, a, e.r)
Open == [b |-> {"axis_angle", "quat", "euler", "rot_euler", "rot_axis", "rot_axis_local", "rot_quat", "decomp", "scaled_orth", "approx", "kind", "orth_index", "diagonalize", "from_z"},
         q |-> {"is_normal", "axis_angle", "from_euler", "euler", "angle_to", "scubic", "approx", "arc"}, p |-> {"normal", "dist", "project", "center", "set_normal", "meet3", "ray", "segment", "approx", "make"}, t |-> {"get", "approx"}, f |-> {"approx"}]
XExp(e) == LET t == e.a[1] f == e.a[2] x == e.a[3] a == SubSeq(e.a, 4, Len(e.a)) IN
  IF f \in Open[t] THEN "any admissible answer" ELSE CASE t = "b" -> BasQ(f, x, a) [] t = "q" -> QuaQ(f, x, a) [] t = "t" -> TraQ(f, x, a) [] OTHER -> AffQ(f, x, a)
=============================================================================
