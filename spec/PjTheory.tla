------------------------------ MODULE PjTheory ------------------------------
(* What a projection and a triangle have to satisfy, whatever formula computes them. *)
EXTENDS PjOps
CONSTANTS N
VARIABLES a, b, w, on
TInit == a \in -N..N /\ b \in -N..N /\ w \in 1..N /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<a, b, w>>
Q(x) == RDiv(x, 4)
DNear == Q(w)
DFar == RAdd(Q(w), RAdd(1, w))
L0 == Q(a - 2)
R0 == Q(a + 1)
B0 == Q(b - 1)
T0 == Q(b + 3)
SameV(x, y) == SameTol(x, y, "1e-8", "1e-9")
(* the eight corners of the visible volume go to the corners of the cube, its edge lines stay straight, depth keeps its order *)
MapsCube(m, persp) == \A sx \in {-1, 1}, sy \in {-1, 1}, sz \in {-1, 1} :
   LET z == IF sz = -1 THEN DNear ELSE DFar k == IF persp THEN RDiv(z, DNear) ELSE 1 IN SameV(Persp4(m, <<RMul(k, IF sx = -1 THEN L0 ELSE R0), RMul(k, IF sy = -1 THEN B0 ELSE T0), RNeg(z)>>), <<sx, sy, sz>>)
Maps == on => MapsCube(Frust(L0, R0, B0, T0, DNear, DFar), TRUE) /\ MapsCube(Ortho4(L0, R0, B0, T0, DNear, DFar), FALSE)
(* a point is inside all six sides exactly when its image is in the cube; the eight reported corners are mapped to the corners of the cube *)
Inside(m, p) == LET q == MV(m, p \o <<1>>) IN RLt(0, q[4]) /\ \A i \in 1..3 : RLe(RAbs(q[i]), q[4])
Sides == on => \A m \in {1, 2} : LET x == IF m = 1 THEN Frust(L0, R0, B0, T0, DNear, DFar) ELSE Ortho4(L0, R0, B0, T0, DNear, DFar) IN
   /\ \A k \in 1..5 : LET p == <<Q(a + k - 3), Q(b - k + 2), RNeg(RAdd(DNear, RDiv(k * k, 7)))>> hs == Strict([j \in 1..6 |-> Height(SidePlane(x, j), p)]) IN
        (\A j \in 1..6 : RLt(R("1e-7"), RAbs(hs[j]))) => ((\A j \in 1..6 : RLt(hs[j], 0)) <=> Inside(x, p))
   /\ LET e == Ends(x) IN {<<RFun("round", Persp4(x, e[i])[1]), RFun("round", Persp4(x, e[i])[2]), RFun("round", Persp4(x, e[i])[3])>> : i \in 1..8} = {<<sx, sy, sz>> : sx \in {-1, 1}, sy \in {-1, 1}, sz \in {-1, 1}}
   /\ \A i \in 1..8 : LET q == Persp4(x, Ends(x)[i]) IN \A j \in 1..3 : REq(RAbs(RFun("round", q[j])), 1) /\ SameV(RAbs(q[j]), 1)
   /\ LET d == DetN(x) IN ~REq(d, 0) /\ SameTol(DetN(Strict(MMul(x, x))), RMul(d, d), "1e-7", "1e-7") /\ SameTol(DetN(Strict(MT(x))), d, "1e-8", "1e-9")
(* an opening angle is recovered from the picture it gives; the two eyes look at the same point at the distance where they converge *)
Angles == on => LET fov == 30 + 5 * w asp == RAdd(1, RDiv(w, 3)) m == Persp(fov, asp, DNear, DFar, FALSE) u == Persp(fov, asp, DNear, DFar, TRUE)
      Up(x) == Deg(RMul(2, RFun("atan", RDiv(1, x[2][2])))) Wide(x) == Deg(RMul(2, RFun("atan", RDiv(1, x[1][1])))) IN
   /\ SameV(Up(m), fov) /\ SameV(Wide(u), fov) /\ SameV(RDiv(m[2][2], m[1][1]), asp) /\ SameV(RDiv(u[2][2], u[1][1]), asp)
   /\ SameV(RMul(2, Deg(RFun("atan", RMul(asp, TanD(fov))))), Wide(m))
   /\ LET c == RAdd(DNear, 1) x == <<Q(a), Q(b), RNeg(c)>> IN SameV(Persp4(Eye(fov, asp, DNear, DFar, FALSE, 1, R("0.1"), c), x), Persp4(Eye(fov, asp, DNear, DFar, FALSE, 2, R("0.1"), c), x))
   /\ LET mid == Hmd(1, 1, 2, 4, w, 1, DNear, DFar) IN SameV(mid[1][3], 0) /\ SameV(Hmd(1, asp, 3, 4, w, 1, DNear, DFar)[1][3], RNeg(Hmd(2, asp, 3, 4, w, 1, DNear, DFar)[1][3]))
(* triangles *)
T == <<<<Q(a), 0, 0>>, <<1, Q(b), Q(w)>>, <<0, 1, Q(a)>>>>
P0 == <<Q(b), Q(w - 2), Q(a - 1)>>
Good == RLt(R("1e-3"), FArea2(T))
Faces == (on /\ Good) =>
   /\ \A i \in 1..3 : SameV(Bary(T, T[i]), [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]) /\ SameV(Closest(T, T[i]), T[i]) /\ SameV(Height(FPlane(T, TRUE), T[i]), 0)
   /\ LET y == OnFace(T, P0) u == Bary(T, y) IN SameV(RAdd(u[1], RAdd(u[2], u[3])), 1) /\ SameV(SumV([i \in 1..3 |-> VScale(T[i], u[i])]), y)
   /\ LET y == Closest(T, P0) d == LenSq(VSub(y, P0)) IN \A i \in 0..4, j \in 0..4 : i + j > 4 \/ RLe(d, RAdd(R("1e-9"), LenSq(VSub(P0, SumV(<<VScale(T[1], RDiv(i, 4)), VScale(T[2], RDiv(j, 4)), VScale(T[3], RDiv(4 - i - j, 4))>>)))))
   /\ SameV(FPlane(T, TRUE)[1], VNeg(FPlane(<<T[2], T[1], T[3]>>, TRUE)[1]))
   /\ LET p == <<Unit(<<1, Q(b), Q(w)>>), Q(a)>> s == SideOf(p, T) x == Fan(Clip(T, p, 1), 2) y == Fan(Clip(T, p, -1), 2) IN
        /\ SameV(VAdd(x, y), VNeg(FNorm(T))) /\ (s = 0 => RLt(Norm(y), R("1e-3"))) /\ (s = 1 => RLt(Norm(x), R("1e-3"))) /\ RLe(R("-1e-9"), Dot(x, y))
(* the separating directions: a gap exactly when no point of the triangle is in the box *)
Gaps == (on /\ Good) => LET bx == <<<<Q(b), Q(a - 2), 0>>, <<R("0.5"), Q(w), 1>>>> g == Apart(T, bx)
      In(x) == \A k \in 1..3 : RLe(bx[1][k], x[k]) /\ RLe(x[k], RAdd(bx[1][k], bx[2][k])) IN
   /\ \A i \in 0..4, j \in 0..4 : (i + j <= 4 /\ In(SumV(<<VScale(T[1], RDiv(i, 4)), VScale(T[2], RDiv(j, 4)), VScale(T[3], RDiv(4 - i - j, 4))>>))) => RLe(g, R("1e-9"))
   /\ \A k \in 1..8 : LET c == Corners8(bx)[k] IN RLe(g, RAdd(R("1e-9"), Norm(VSub(Closest(T, c), c))))
=============================================================================
