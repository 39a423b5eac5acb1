----------------------------- MODULE ConvSpec -----------------------------
(* MLPPConvolutions: event F <<function, destination, arguments...>>.     *)
(* Convolution is the sliding dot product of the zero-padded input with   *)
(* the filter, the window moving by the stride.                           *)
EXTENDS LinOps
(* planes are square sequences of rows; a value outside the plane is 0 *)
PadAt(d, n, P, i, j) == IF i <= P \/ j <= P \/ i > n + P \/ j > n + P THEN 0 ELSE d[i - P][j - P]
MapSize(n, f, S, P) == ((n - f + 2 * P) \div S) + 1
Grid(m, F(_, _)) == [i \in 1..m |-> [j \in 1..m |-> F(i, j)]]
Window(d, n, f, S, P, i, j) == FlattenS([k \in 1..f |-> [q \in 1..f |-> PadAt(d, n, P, (i - 1) * S + k, (j - 1) * S + q)]])
Conv2(A, F, S, P) ==
  LET ff == FlatM(F) m == MapSize(A.r, F.r, S, P) G(i, j) == RDot(Window(A.d, A.r, F.r, S, P, i, j), ff) IN Mk(m, m, G)
(* a filter tensor holds z(filter) / z(input) filters, each as deep as the input *)
Conv3(A, F, S, P) ==
  LET C == F.z \div A.z
      m == MapSize(A.y, F.y, S, P)
      G(c, i, j) == RSum([t \in 1..A.z |-> RDot(Window(A.d[t], A.y, F.y, S, P, i, j), FlattenS(F.d[(c - 1) * A.z + t]))])
  IN [x |-> m, y |-> m, z |-> C, d |-> [c \in 1..C |-> LET H(i, j) == G(c, i, j) IN Grid(m, H)]]
Pool(ty, w) == CASE ty = 0 -> Mean(w) [] ty = 1 -> Red("min_element", w) [] ty = 2 -> Red("max_element", w)
PoolD(d, n, f, S, ty) == LET G(i, j) == Pool(ty, Window(d, n, f, S, 0, i, j)) IN Grid(MapSize(n, f, S, 0), G)
Pool2(A, f, S, ty) == LET m == MapSize(A.r, f, S, 0) IN [r |-> m, c |-> m, d |-> PoolD(A.d, A.r, f, S, ty)]
Pool3(A, f, S, ty) == LET m == MapSize(A.y, f, S, 0) IN [x |-> m, y |-> m, z |-> A.z, d |-> [t \in 1..A.z |-> PoolD(A.d[t], A.y, f, S, ty)]]
GPool3(A, ty) == [t \in 1..A.z |-> Pool(ty, FlattenS(A.d[t]))]
Gauss(x, y, s) == LET v == RMul(s, s) IN
  RDiv(RExp(RDiv(RNeg(RAdd(RMul(x, x), RMul(y, y))), RMul(2, v))), RMul(RMul(2, RPi), v))
GaussFilter(n, s) == LET h == (n - 1) \div 2 G(i, j) == Gauss(i - 1 - h, h - (j - 1), s) IN Mk(n, n, G)
At0(A, i, j) == IF i < 1 \/ j < 1 \/ i > A.r \/ j > A.c THEN 0 ELSE A.d[i][j]
Dx(A) == LET G(i, j) == RSub(At0(A, i, j + 1), At0(A, i, j - 1)) IN Mk(A.r, A.c, G)
Dy(A) == LET G(i, j) == RSub(At0(A, i - 1, j), At0(A, i + 1, j)) IN Mk(A.r, A.c, G)
GradMag(A) == ZipM(LAMBDA x, y : RSqrt(RAdd(RSq(x), RSq(y))), Dx(A), Dy(A))
GradOri(A) == ZipM(LAMBDA x, y : RAtan2(y, x), Dx(A), Dy(A))
(* the structure tensor smoothed by a 3x3 Gaussian of sigma 1 *)
Smooth(A) == Conv2(A, GaussFilter(3, 1), 1, 1)
StructM(A) == LET x == Dx(A) y == Dy(A) IN <<Smooth(ZipM(RMul, x, x)), Smooth(ZipM(RMul, y, y)), Smooth(ZipM(RMul, x, y))>>
Response(A) == LET M == StructM(A)
                   G(i, j) == LET a == M[1].d[i][j] b == M[2].d[i][j] c == M[3].d[i][j] IN
                              RSub(RSub(RMul(a, b), RMul(c, c)), RMul(R("0.05"), RSq(RAdd(a, b))))
               IN Mk(A.r, A.c, G)
Filters == [prewitt_horizontal |-> <<<<1, 1, 1>>, <<0, 0, 0>>, <<-1, -1, -1>>>>, prewitt_vertical |-> <<<<1, 0, -1>>, <<1, 0, -1>>, <<1, 0, -1>>>>,
            sobel_horizontal |-> <<<<1, 2, 1>>, <<0, 0, 0>>, <<-1, -2, -1>>>>, sobel_vertical |-> <<<<-1, 0, 1>>, <<-2, 0, 2>>, <<-1, 0, 1>>>>,
            scharr_horizontal |-> <<<<3, 10, 3>>, <<0, 0, 0>>, <<-3, -10, -3>>>>, scharr_vertical |-> <<<<3, 0, -3>>, <<10, 0, -10>>, <<3, 0, -3>>>>,
            roberts_horizontal |-> <<<<0, 1>>, <<-1, 0>>>>, roberts_vertical |-> <<<<1, 0>>, <<0, -1>>>>]
FDo(st, e) ==
  LET f == e.a[1] d == e.a[2] a == e.a X == st[a[3]] ok(v) == Out(Put(st, d, v), "ok") IN
  CASE f = "convolve_2d" -> ok(Conv2(X, st[a[4]], a[5], a[6]))
    [] f = "convolve_3d" -> ok(Conv3(X, st[a[4]], a[5], a[6]))
    [] f = "pool_2d" -> ok(Pool2(X, a[4], a[5], a[6]))
    [] f = "pool_3d" -> ok(Pool3(X, a[4], a[5], a[6]))
    [] f = "global_pool_2d" -> Out(st, Pool(a[4], FlatM(X)))
    [] f = "global_pool_3d" -> ok(GPool3(X, a[4]))
    [] f = "gaussian_2d" -> Out(st, Gauss(a[3], a[4], a[5]))
    [] f = "gaussian_filter_2d" -> ok(GaussFilter(a[3], a[4]))
    [] f = "dx" -> ok(Dx(X))
    [] f = "dy" -> ok(Dy(X))
    [] f = "grad_magnitude" -> ok(GradMag(X))
    [] f = "grad_orientation" -> ok(GradOri(X))
    [] f = "compute_m" -> LET M == StructM(X) IN ok([x |-> X.c, y |-> X.r, z |-> 3, d |-> <<M[1].d, M[2].d, M[3].d>>])
    [] f = "compute_mv" -> LET M == StructM(X) IN Out(PutAll(st, d, M), "ok")
    [] f = "filter" -> ok(OfRows(Filters[a[3]]))
Do(st, e) == IF e.op = "F" THEN FDo(st, e) ELSE IF SubSeq(e.op, 1, 2) = "T." THEN TDo(st, e) ELSE MDo(st, e)
(* corner, edge or neither by the sign of the response; a response within *)
(* rounding of zero may be reported either way                            *)
Zero(A) == \A i \in 1..A.r, j \in 1..A.c : REq(A.d[i][j], 0)
HarrisOk(st, e) ==
  LET A == st[e.a[3]] q == Response(A) M == StructM(A) flat(i, j) == \A k \in 1..3 : REq(M[k].d[i][j], 0) IN
  /\ SameX(e.s, st)
  /\ Len(e.r) = A.r
  /\ \A i \in 1..A.r : /\ Len(e.r[i]) = A.c
                       /\ \A j \in 1..A.c : CASE flat(i, j) -> e.r[i][j] = "N"
                                              [] RLt(R("1e-9"), q.d[i][j]) -> e.r[i][j] = "C"
                                              [] RLt(q.d[i][j], R("-1e-9")) -> e.r[i][j] = "E"
                                              [] OTHER -> e.r[i][j] \in {"N", "C", "E"}
(* the angles pi and -pi are one direction; a zero gradient has none *)
SameAngle(x, y) == Same(x, y) \/ (Same(RAbs(x), RPi) /\ Same(RAbs(y), RPi))
OriOk(st, e) == LET x == Dx(st[e.a[3]]) y == Dy(st[e.a[3]]) w == GradOri(st[e.a[3]]) o == e.s[e.a[2]] IN
  /\ e.r = "ok" /\ Same(e.s, Put(st, e.a[2], o)) /\ SameSize(w, o)
  /\ \A i \in 1..w.r, j \in 1..w.c : SameAngle(w.d[i][j], o.d[i][j]) \/ (REq(x.d[i][j], 0) /\ REq(y.d[i][j], 0))
IsHarris(e) == e.op = "F" /\ e.a[1] = "harris"
Expected(st, e) == IF IsHarris(e) THEN Response(st[e.a[3]]) ELSE Do(st, e)
Conforms(st, e) == IF IsHarris(e) THEN HarrisOk(st, e) ELSE IF e.op = "F" /\ e.a[1] = "grad_orientation" THEN OriOk(st, e) ELSE LET o == Do(st, e) IN Same(o.r, e.r) /\ Same(o.s, e.s)
After(st, e) == e.s
===========================================================================
