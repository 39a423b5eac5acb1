------------------------------ MODULE XfTheory ------------------------------
(* The laws of matrices, affine maps, turns and quaternions, on small grids. *)
EXTENDS XfOps
CONSTANTS D, M
VARIABLES a, b, p, on
Mats == [1..D -> [1..D -> -M..M]]
Few == IF D = 2 THEN Mats ELSE {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<1, 2, 0>>, <<0, 1, -1>>, <<3, 0, 1>>>>, <<<<2, 0, 0>>, <<0, 3, 0>>, <<0, 0, -1>>>>, <<<<1, 1, 1>>, <<1, 1, 1>>, <<0, 1, 2>>>>}
TInit == a \in Few /\ b \in Few /\ p \in [1..D -> {-1, 2}] /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<a, b, p>>
P2 == [i \in 1..D |-> p[i] + i]
X1 == <<a, p>>
Y1 == <<b, P2>>
Algebra == on =>
  /\ Same(Det(MMul(a, b)), RMul(Det(a), Det(b))) /\ SameX(MT(MMul(a, b)), MMul(MT(b), MT(a))) /\ SameX(MT(MT(a)), a) /\ SameX(MMul(a, Ident(D)), a) /\ SameX(MV(MMul(a, b), p), MV(a, MV(b, p)))
  /\ SameX(MV(Ident(D), p), p) /\ Dot(MV(a, p), P2) = Dot(p, MV(MT(a), P2))
  /\ SameX(AX(AMul(X1, Y1), P2), AX(X1, AX(Y1, P2))) /\ SameX(AMul(AMul(X1, Y1), X1), AMul(X1, AMul(Y1, X1)))
  /\ (~REq(Det(a), 0) => Same(MMul(MInv(a), a), Ident(D)) /\ Same(AMul(X1, AInv(X1)), <<Ident(D), Zero(D)>>) /\ Same(AX(AInv(X1), AX(X1, P2)), P2)
        /\ LET o == Ortho(a) IN Same(MMul(MT(o), o), Ident(D)) /\ Same(Ortho(o), o) /\ Same(Det(o), RSign(Det(a))) /\ Same(ARigid(<<o, p>>), AInv(<<o, p>>)) /\ Same(AXInv(<<o, p>>, AX(<<o, p>>, P2)), P2))
  /\ (D = 2 => SameX(A2(T2(X1)), X1))
  (* a box image holds the image of every point of the box *)
  /\ LET s == [i \in 1..D |-> 2] F(q) == AX(X1, q) g == BoxImg(F, <<P2, s>>) IN \A q \in [1..D -> 0..2] : LET y == AX(X1, [i \in 1..D |-> P2[i] + q[i]]) IN \A i \in 1..D : RLe(g[1][i], y[i]) /\ RLe(y[i], RAdd(g[1][i], g[2][i]))
(* turns: axis, angle and two more angles from small sets *)
Axes == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, Unit(<<1, 2, -2>>), Unit(<<-1, 1, 1>>)>>
Turn(i, k) == RotM(Axes[i], RMul(k, R("0.5235987755982988")))
QTurn(i, k) == QAxis(Axes[i], RMul(k, R("0.5235987755982988")))
Turns == (on /\ D = 3 /\ a = Ident(3) /\ b = Ident(3)) => \A i, j \in 1..5 : \A k \in {0, 1, 3, 6, 8, -5} :
  LET m == Turn(i, k) q == QTurn(i, k) n == Turn(j, 2) u == QTurn(j, 2) IN
  /\ Same(MMul(m, MT(m)), Ident(3)) /\ Same(Det(m), 1) /\ Same(MMul(m, Turn(i, 2)), Turn(i, k + 2)) /\ Same(MV(m, Axes[i]), Axes[i])
  /\ Same(QM(q), m) /\ Same(QM(QMul(q, u)), MMul(m, n)) /\ Same(QM(QConj(q)), MT(m)) /\ Same(QRot(q, p), MV(m, p)) /\ Same(QMul(q, QConj(q)), <<0, 0, 0, 1>>) /\ Same(Norm(QMul(q, u)), 1)
  /\ (Same(MQ(m), q) \/ Same(MQ(m), VNeg(q))) /\ LET e == EulerM("zxy", <<R("0.3"), R("-1.1"), k>>) IN Same(Det(e), 1) /\ Same(QM(MQ(e)), e)
  /\ Same(RotPart(MMul(m, Diag(<<-1, -2, -3>>))), m) /\ Same(ScaleOf(MMul(m, Diag(<<-1, -2, -3>>))), <<-1, -2, -3>>)
  (* the arc: unit length, at the stated share of the angle, ends met, the same turn for either sign *)
  /\ \A w4 \in {0, 1, 4} : ~Shaky(q, u) => LET w == RDiv(w4, 4) s == QSlerp(q, u, w) o == RFun("acos", RMin(1, RAbs(Dot(q, u)))) IN
       SameTol(Norm(s), 1, "1e-8", "1e-8") /\ SameTol(Dot(s, q), RFun("cos", RMul(w, o)), "1e-7", "1e-7") /\ SameTol(RAbs(Dot(s, u)), RFun("cos", RMul(RSub(1, w), o)), "1e-7", "1e-7") /\ SameTol(QM(QSlerp(q, VNeg(u), w)), QM(s), "1e-6", "1e-6")
Sights == (on /\ D = 3 /\ a = Ident(3)) => \A up \in {<<0, 1, 0>>, <<1, 0, 2>>} : LET d == VAdd(p, P2) IN ~IsZero(Cross(up, d)) =>
  LET m == Look(d, up, FALSE) IN Same(MMul(m, MT(m)), Ident(3)) /\ Same(Det(m), 1) /\ Same(MV(m, <<0, 0, -1>>), Unit(d)) /\ Same(Dot(MV(m, <<1, 0, 0>>), up), 0) /\ RLt(0, Dot(MV(m, <<0, 1, 0>>), up))
Planes == (on /\ D = 3) => LET n == Unit(P2) x == <<n, 2>> q == VSub(p, VScale(n, Height(x, p))) IN Same(Height(x, q), 0)
  /\ (~IsZero(Cross(VSub(p, P2), VSub(p, a[1]))) => LET t == Tri(p, P2, a[1]) IN Same(Height(t, p), 0) /\ Same(Height(t, P2), 0) /\ Same(Height(t, a[1]), 0))
  /\ (~REq(Det(b), 0) => LET g == AffQ("xformp", Y1, <<x>>)[1] IN Same(Height(g, AX(Y1, q)), 0))
=============================================================================
