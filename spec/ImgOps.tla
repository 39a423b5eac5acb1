------------------------------ MODULE ImgOps ------------------------------
(* Images.  An image is [w, h, f, mm, lk, d]: size, format (0..11: L, LA, R, *)
(* RG, RGB, RGBA with 8 bits, RGBA4444, RGBA5551, RF, RGF, RGBF, RGBAF),     *)
(* whether it carries mipmaps, whether it is locked, and the levels of its   *)
(* channels, pixel by pixel, row by row, mipmap by mipmap.  Colours are      *)
(* whole numbers in units of 1/U, which every integer format divides.        *)
(* Where a result may fall either way by rounding it is computed twice, with *)
(* b = -1 and b = 1: everything in between is right.                         *)
EXTENDS Rl, FiniteSets, TLC
U == 79050
Ks == {"i1", "i2", "i3"}
Empty == [w |-> 0, h |-> 0, f |-> 0, mm |-> FALSE, lk |-> FALSE, d |-> <<>>]
InitState == [i1 |-> Empty, i2 |-> Empty, i3 |-> Empty]
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
Ch(f) == <<1, 2, 1, 2, 3, 4, 4, 4, 1, 2, 3, 4>>[f + 1]
Bpp(f) == <<1, 2, 1, 2, 3, 4, 2, 2, 4, 8, 12, 16>>[f + 1]
Names == <<"Lum8", "LumAlpha8", "Red8", "RedGreen", "RGB8", "RGBA8", "RGBA4444", "RGBA5551", "RFloat", "RGFloat", "RGBFloat", "RGBAFloat">>
IsFl(f) == f >= 8
Packed(f) == f \in {6, 7}
HasA(f) == f \in {1, 5, 6, 7, 11}
Top(f, c) == IF f < 6 THEN 255 ELSE IF f = 6 THEN 15 ELSE IF f = 7 THEN (IF c = 4 THEN 1 ELSE 31) ELSE 8000000
Bot(f) == IF IsFl(f) THEN -8000000 ELSE 0
LevelOf(n, l) == IF n <= 0 THEN 0 ELSE IF n >= U THEN l ELSE (2 * n * l + U) \div (2 * U)
Max3(c) == MaxI(MaxI(c[1], c[2]), c[3])
L8(n) == LevelOf(n, 255)
PxOf(f, c) == CASE f = 0 -> <<L8(Max3(c))>> [] f = 1 -> <<L8(Max3(c)), L8(c[4])>> [] f = 2 -> <<L8(c[1])>> [] f = 3 -> <<L8(c[1]), L8(c[2])>> [] f = 4 -> <<L8(c[1]), L8(c[2]), L8(c[3])>> [] f = 5 -> <<L8(c[1]), L8(c[2]), L8(c[3]), L8(c[4])>>
  [] f = 6 -> [i \in 1..4 |-> LevelOf(c[i], 15)] [] f = 7 -> <<LevelOf(c[1], 31), LevelOf(c[2], 31), LevelOf(c[3], 31), IF 2 * c[4] > U THEN 1 ELSE 0>>
  [] f = 8 -> <<c[1]>> [] f = 9 -> <<c[1], c[2]>> [] f = 10 -> <<c[1], c[2], c[3]>> [] f = 11 -> c
ColOf(f, p) == CASE f = 0 -> <<310 * p[1], 310 * p[1], 310 * p[1], U>> [] f = 1 -> <<310 * p[1], 310 * p[1], 310 * p[1], 310 * p[2]>> [] f = 2 -> <<310 * p[1], 0, 0, U>> [] f = 3 -> <<310 * p[1], 310 * p[2], 0, U>> [] f = 4 -> <<310 * p[1], 310 * p[2], 310 * p[3], U>>
  [] f = 5 -> <<310 * p[1], 310 * p[2], 310 * p[3], 310 * p[4]>> [] f = 6 -> [i \in 1..4 |-> 5270 * p[i]] [] f = 7 -> <<2550 * p[1], 2550 * p[2], 2550 * p[3], U * p[4]>>
  [] f = 8 -> <<p[1], 0, 0, U>> [] f = 9 -> <<p[1], p[2], 0, U>> [] f = 10 -> <<p[1], p[2], p[3], U>> [] f = 11 -> p
(* --- pixels *)
Flat(n, ch, P(_)) == Strict([i \in 1..(n * ch) |-> P((i - 1) \div ch)[((i - 1) % ch) + 1]])  \* P(k): the k-th pixel
FlatXY(w, h, ch, P(_, _)) == LET px == Strict([k \in 1..(w * h) |-> P(((k - 1) % w), (k - 1) \div w)]) IN Strict([i \in 1..(w * h * ch) |-> px[((i - 1) \div ch) + 1][((i - 1) % ch) + 1]])
PxAt(im, x, y) == SubSeq(im.d, (y * im.w + x) * Ch(im.f) + 1, (y * im.w + x + 1) * Ch(im.f))
ColAt(im, x, y) == ColOf(im.f, PxAt(im, x, y))
In(im, x, y) == x \in 0..(im.w - 1) /\ y \in 0..(im.h - 1) /\ im.d # <<>>
BaseN(im) == im.w * im.h * Ch(im.f)
Base(im) == SubSeq(im.d, 1, BaseN(im))
Rest(im) == SubSeq(im.d, BaseN(im) + 1, Len(im.d))
Paint(im, P(_, _)) == [im EXCEPT !.d = FlatXY(im.w, im.h, Ch(im.f), P) \o Rest(im)]
(* --- mipmaps *)
Next1(n) == MaxI(1, n \div 2)
Half(f, w, h, d) == LET n == Ch(f) At(x, y, c) == d[(y * w + x) * n + c] xs == IF w = 1 THEN 0 ELSE 1 ys == IF h = 1 THEN 0 ELSE 1
  Av(x, y, c) == LET s == At(x, y, c) + At(x + xs, y, c) + At(x, y + ys, c) + At(x + xs, y + ys, c) IN IF IsFl(f) THEN s \div 4 ELSE (s + 2) \div 4 IN
  FlatXY(Next1(w), Next1(h), n, LAMBDA i, j : [c \in 1..n |-> Av(2 * i * xs, 2 * j * ys, c)])
RECURSIVE Mips(_, _, _, _), MipN(_, _), Pixels(_, _, _), Dims(_, _, _)
Mips(f, w, h, d) == IF w = 1 /\ h = 1 THEN <<>> ELSE LET b == Half(f, w, h, d) IN b \o Mips(f, Next1(w), Next1(h), b)
MipN(w, h) == IF w = 1 /\ h = 1 THEN 0 ELSE 1 + MipN(Next1(w), Next1(h))
Pixels(w, h, k) == IF k = 0 THEN 0 ELSE w * h + Pixels(Next1(w), Next1(h), k - 1)   \* of the first k levels
Dims(w, h, k) == IF k = 0 THEN <<w, h>> ELSE Dims(Next1(w), Next1(h), k - 1)
GenMm(im) == IF Packed(im.f) \/ im.lk THEN [s |-> im, r |-> 1] ELSE IF im.w = 0 \/ im.h = 0 THEN [s |-> im, r |-> 2] ELSE [s |-> [im EXCEPT !.mm = TRUE, !.d = Base(im) \o Mips(im.f, im.w, im.h, im.d)], r |-> 0]
Again(im, had) == IF had THEN GenMm(im).s ELSE im
NoMm(im) == IF im.mm /\ im.d # <<>> THEN [im EXCEPT !.mm = FALSE, !.d = Base(im)] ELSE im
Plain(w, h, f, d) == [w |-> w, h |-> h, f |-> f, mm |-> FALSE, lk |-> FALSE, d |-> d]
Zeros(n) == [i \in 1..n |-> 0]
Size(w, h, f, mm) == Pixels(w, h, IF mm THEN MipN(w, h) + 1 ELSE 1) * Ch(f)
DimOk(w, h, f) == w > 0 /\ h > 0 /\ w <= 16384 /\ h <= 16384 /\ f \in 0..11
New(w, h, mm, f) == [Plain(w, h, f, Zeros(Size(w, h, f, mm))) EXCEPT !.mm = mm]
(* --- formats *)
Bytes8(f, g, p) == LET n == Ch(f) - (IF HasA(f) THEN 1 ELSE 0) rgb == IF n = 1 /\ f < 2 THEN <<p[1], p[1], p[1]>> ELSE [i \in 1..3 |-> IF i <= n THEN p[i] ELSE 0] a == IF HasA(f) THEN p[n + 1] ELSE 255
  l == (rgb[1] + rgb[2] + rgb[3]) \div 3 IN CASE g = 0 -> <<l>> [] g = 1 -> <<l, a>> [] g = 2 -> <<rgb[1]>> [] g = 3 -> SubSeq(rgb, 1, 2) [] g = 4 -> rgb [] g = 5 -> rgb \o <<a>>
ConvPx(f, g, p, b) == IF f < 6 /\ g < 6 THEN Bytes8(f, g, p) ELSE LET c == ColOf(f, p) IN PxOf(g, IF IsFl(f) /\ ~IsFl(g) THEN [i \in 1..4 |-> c[i] + 4 * b] ELSE c)
Conv(im, g, b) == IF im.d = <<>> \/ g = im.f \/ im.lk THEN im ELSE Again(Plain(im.w, im.h, g, FlatXY(im.w, im.h, Ch(g), LAMBDA x, y : ConvPx(im.f, g, PxAt(im, x, y), b))), im.mm)
(* --- sizes *)
Near(im, w, h) == FlatXY(w, h, Ch(im.f), LAMBDA x, y : PxAt(im, (x * im.w) \div w, (y * im.h) \div h))
(* two neighbours and the share of the second, in 256ths, of pixel centre i of n in a row of m *)
Between(i, n, m) == LET p == ((2 * i + 1) * m * 128) \div n fr == (p % 256) IN [a |-> IF p >= 128 THEN (p - 128) \div 256 ELSE 0, b |-> MinI((p + 128) \div 256, m - 1), s |-> IF fr >= 128 THEN fr - 128 ELSE fr + 128]
Bilin(im, w, h) == LET fl == IsFl(im.f) Mix(a, b, s) == a + ((b - a) * s) \div 256 IN FlatXY(w, h, Ch(im.f), LAMBDA x, y : LET X == Between(x, w, im.w) Y == Between(y, h, im.h)
  p == PxAt(im, X.a, Y.a) q == PxAt(im, X.b, Y.a) r == PxAt(im, X.a, Y.b) t == PxAt(im, X.b, Y.b) IN
  [c \in 1..Ch(im.f) |-> IF fl THEN Mix(Mix(p[c], q[c], X.s), Mix(r[c], t[c], X.s), Y.s) ELSE Mix(256 * p[c] + (q[c] - p[c]) * X.s, 256 * r[c] + (t[c] - r[c]) * X.s, Y.s) \div 256])
(* the smoother filters: only that an image of one colour stays so *)
Smooth(im, w, h, b) == LET p == PxAt(im, 0, 0) one == \A k \in 1..Len(im.d) : im.d[k] = p[((k - 1) % Ch(im.f)) + 1]
  e(c) == LET v == p[c] + b IN IF IsFl(im.f) THEN v ELSE MaxI(0, MinI(255, v)) IN FlatXY(w, h, Ch(im.f), LAMBDA x, y : [c \in 1..Ch(im.f) |-> IF one THEN e(c) ELSE IF b < 0 THEN Bot(im.f) ELSE Top(im.f, c)])
Resize(im, w, h, i, b) == IF im.d = <<>> \/ im.lk \/ ~DimOk(w, h, 0) \/ (w = im.w /\ h = im.h) \/ (Packed(im.f) /\ i # 0) THEN im ELSE
  Again(Plain(w, h, im.f, CASE i = 0 -> Near(im, w, h) [] i = 1 -> Bilin(im, w, h) [] OTHER -> Smooth(im, w, h, b)), im.mm)
RECURSIVE Po2(_, _)
Po2(n, k) == IF n <= k THEN (IF n = 0 THEN 0 ELSE k) ELSE Po2(n, 2 * k)
Crop(im, x0, y0, w, h) == IF im.lk \/ x0 < 0 \/ y0 < 0 \/ w <= 0 \/ h <= 0 \/ x0 + w > 16384 \/ y0 + h > 16384 \/ (w = im.w /\ h = im.h /\ x0 = 0 /\ y0 = 0) THEN im ELSE
  Again(Plain(w, h, im.f, FlatXY(w, h, Ch(im.f), LAMBDA x, y : IF In(im, x + x0, y + y0) THEN PxAt(im, x + x0, y + y0) ELSE Zeros(Ch(im.f)))), im.mm)
Shrink(im) == IF im.lk \/ im.d = <<>> THEN im ELSE IF im.mm THEN (IF im.w = 1 /\ im.h = 1 THEN im ELSE [im EXCEPT !.w = Next1(im.w), !.h = Next1(im.h), !.d = Rest(im)])
  ELSE IF im.w < 2 \/ im.h < 2 \/ Packed(im.f) THEN im ELSE [im EXCEPT !.w = im.w \div 2, !.h = im.h \div 2, !.d = Half(im.f, im.w, im.h, im.d)]
Flip(im, fx, fy) == IF im.d = <<>> THEN im ELSE Again(Plain(im.w, im.h, im.f, FlatXY(im.w, im.h, Ch(im.f), LAMBDA x, y : PxAt(im, IF fx THEN im.w - 1 - x ELSE x, IF fy THEN im.h - 1 - y ELSE y))), im.mm)
(* --- painting *)
FillR(im, r, c) == LET x0 == r[1] + MinI(r[3], 0) y0 == r[2] + MinI(r[4], 0) x1 == r[1] + MaxI(r[3], 0) y1 == r[2] + MaxI(r[4], 0) p == PxOf(im.f, c) IN
  IF im.d = <<>> THEN im ELSE Paint(im, LAMBDA x, y : IF x >= x0 /\ x < x1 /\ y >= y0 /\ y < y1 THEN p ELSE PxAt(im, x, y))
(* the source pixel that lands on x, y *)
Over(im, src, r, d, x, y, P(_, _)) == LET u == x - d[1] + r[1] v == y - d[2] + r[2] IN IF u >= r[1] /\ v >= r[2] /\ u < r[1] + r[3] /\ v < r[2] + r[4] /\ In(src, u, v) THEN P(u, v) ELSE PxAt(im, x, y)
Alpha(im, x, y) == ColAt(im, x, y)[4]
Blit(im, src, r, d, Take(_, _)) == IF im.d = <<>> \/ src.d = <<>> \/ im.f # src.f THEN im ELSE Paint(im, LAMBDA x, y : Over(im, src, r, d, x, y, LAMBDA u, v : IF Take(u, v) THEN PxAt(src, u, v) ELSE PxAt(im, x, y)))
(* 8-bit blending: what lies below shows through where the upper is not opaque *)
Mixed(f, p, q, b) == LET n == Ch(f) - (IF HasA(f) THEN 1 ELSE 0) da == IF HasA(f) THEN p[n + 1] ELSE 255 sa == IF HasA(f) THEN q[n + 1] ELSE 255 A == da * (255 - sa) + sa * 255
  C(c) == LET m == p[c] * da * (255 - sa) + q[c] * sa * 255 v == (2 * m + A + b * (A \div 500 + 1)) \div (2 * A) IN MaxI(0, MinI(255, v)) IN
  IF sa = 0 THEN p ELSE [c \in 1..n |-> C(c)] \o (IF HasA(f) THEN <<MaxI(0, MinI(255, (2 * A + 255 + b) \div 510))>> ELSE <<>>)
Blend(im, src, r, d, Take(_, _), b) == IF im.d = <<>> \/ src.d = <<>> \/ im.f # src.f THEN im ELSE Paint(im, LAMBDA x, y : Over(im, src, r, d, x, y, LAMBDA u, v : IF Take(u, v) THEN Mixed(im.f, PxAt(im, x, y), PxAt(src, u, v), b) ELSE PxAt(im, x, y)))
MaskOk(src, m) == m.d # <<>> /\ m.w = src.w /\ m.h = src.h
(* --- what is in it *)
Used(im) == IF ~HasA(im.f) THEN <<0, 0, im.w, im.h>> ELSE LET P == {k \in 0..(im.w * im.h - 1) : im.d # <<>> /\ Alpha(im, (k % im.w), k \div im.w) > 0} xs == {(k % im.w) : k \in P} ys == {k \div im.w : k \in P}
  Lo(S) == CHOOSE a \in S : \A b \in S : a <= b Hi(S) == CHOOSE a \in S : \A b \in S : a >= b IN IF P = {} THEN <<0, 0, 0, 0>> ELSE <<Lo(xs), Lo(ys), Hi(xs) - Lo(xs) + 1, Hi(ys) - Lo(ys) + 1>>
Cols(im) == IF im.d = <<>> THEN {} ELSE {ColAt(im, (k % im.w), k \div im.w) : k \in 0..(im.w * im.h - 1)}
AlphaKind(im) == LET C == Cols(im) IN IF \E c \in C : c[4] >= 620 /\ c[4] < 78740 THEN 2 ELSE IF \E c \in C : c[4] < 620 THEN 1 ELSE 0
Invisible(im) == HasA(im.f) /\ \A c \in Cols(im) : c[4] <= 0
Channels(im) == LET C == Cols(im) r == \E c \in C : c[1] > 79 g == \E c \in C : c[2] > 79 bl == \E c \in C : c[3] > 79 a == \E c \in C : c[4] < 78971 c3 == \E c \in C : c[1] # c[2] \/ c[1] # c[3] IN
  IF im.d = <<>> THEN 5 ELSE IF ~c3 THEN (IF a THEN 1 ELSE 0) ELSE IF r /\ ~g /\ ~bl /\ ~a THEN 2 ELSE IF r /\ g /\ ~bl /\ ~a THEN 3 ELSE IF r /\ g /\ bl /\ ~a THEN 4 ELSE 5
(* --- over all levels *)
Each(im, n, P(_)) == [im EXCEPT !.d = Flat(Len(im.d) \div n, n, LAMBDA k : P(SubSeq(im.d, k * n + 1, (k + 1) * n)))]
ToXY(im) == LET j == Conv(im, 5, 0) IN IF im.d = <<>> THEN im ELSE Conv(Each(j, 4, LAMBDA p : <<p[2], p[2], p[2], p[1]>>), 1, 0)
PreM(im, b) == IF im.f # 5 \/ im.d = <<>> THEN im ELSE Paint(im, LAMBDA x, y : LET p == PxAt(im, x, y) M(c) == IF p[4] = 255 THEN c ELSE IF p[4] = 0 \/ c = 0 THEN 0 ELSE MaxI(0, (c * p[4]) \div 255 + b) IN <<M(p[1]), M(p[2]), M(p[3]), p[4]>>)
Lin(v, b) == IF v \in {0, 255} THEN v ELSE LET x == RDiv(v, 255) y == IF RLt(x, "0.04045") THEN RDiv(x, "12.92") ELSE RPow(RDiv(RAdd(x, "0.055"), "1.055"), "2.4") IN RTrunc(RAdd(RMul(y, 255), IF b > 0 THEN "0.99999" ELSE IF b < 0 THEN "-0.00001" ELSE 0))
Linear(im, b) == IF im.d = <<>> \/ im.f \notin {4, 5} THEN im ELSE Each(im, Ch(im.f), LAMBDA p : <<Lin(p[1], b), Lin(p[2], b), Lin(p[3], b)>> \o SubSeq(p, 4, Ch(im.f)))
Bump(im, sc, b) == LET j == Conv(im, 8, 0) H(x, y) == RDiv(PxAt(j, (x % j.w), (y % j.h))[1], U) By(v) == RTrunc(RAdd(RAdd("127.5", RMul(v, "127.5")), IF b > 0 THEN "0.01" ELSE IF b < 0 THEN "-0.01" ELSE 0)) IN
  IF im.lk THEN im ELSE IF im.d = <<>> THEN [im EXCEPT !.f = 5] ELSE
  Again(Plain(im.w, im.h, 5, FlatXY(im.w, im.h, 4, LAMBDA x, y : LET dx == RMul(sc, RSub(H(x + 1, y), H(x, y))) dy == RMul(sc, RSub(H(x, y), H(x, y + 1))) n == RSqrt(RAdd(1, RAdd(RSq(dx), RSq(dy)))) IN <<By(RNeg(RDiv(dx, n))), By(RNeg(RDiv(dy, n))), By(RInv(n)), 255>>)), im.mm)
Edges(im) == IF im.f # 5 \/ im.d = <<>> \/ im.lk THEN im ELSE Paint(im, LAMBDA x, y : LET p == PxAt(im, x, y)
  N == {k \in 0..(im.w * im.h - 1) : LET u == (k % im.w) v == k \div im.w IN u - x \in -4..4 /\ v - y \in -4..4 /\ PxAt(im, u, v)[4] >= 20}
  D(k) == ((k % im.w) - x) * ((k % im.w) - x) + (k \div im.w - y) * (k \div im.w - y)
  best == CHOOSE k \in N : \A l \in N : D(k) < D(l) \/ (D(k) = D(l) /\ k <= l) q == PxAt(im, (best % im.w), best \div im.w) IN IF p[4] >= 20 \/ N = {} THEN p ELSE <<q[1], q[2], q[3], p[4]>>)
(* --- tensors [x, y, z, d] and lists of channels *)
Bit(n, i) == ((n \div <<1, 2, 4, 8>>[i]) % 2) = 1
Chans(n) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : Bit(n, i))
TAt(t, x, y, z) == t.d[(z * t.y + y) * t.x + x + 1]
TLen(t) == t.x * t.y * t.z
Ten(x, y, z, P(_, _, _)) == [x |-> x, y |-> y, z |-> z, d |-> Strict([k \in 1..(x * y * z) |-> P(((k - 1) % x), (((k - 1) \div x) % y), (k - 1) \div (x * y))])]
(* the side of a tensor at n: its size and values *)
Side(t, m, n) == CASE m = "z" -> [w |-> t.x, h |-> t.y, n |-> t.z] [] m = "x" -> [w |-> t.y, h |-> t.z, n |-> t.x] [] m = "y" -> [w |-> t.x, h |-> t.z, n |-> t.y]
SideAt(t, m, n, x, y) == CASE m = "z" -> TAt(t, x, y, n) [] m = "x" -> TAt(t, n, x, y) [] m = "y" -> TAt(t, x, n, y)
Shape(im, w, h) == IF im.w = w /\ im.h = h THEN im ELSE LET r == Resize(im, w, h, 0, 0) IN IF r.mm = im.mm THEN r ELSE IF im.mm THEN GenMm(r).s ELSE NoMm(r)
Into(im, w, h, C(_, _)) == LET j == Shape(im, w, h) IN IF j.d = <<>> THEN j ELSE Paint(j, LAMBDA x, y : PxOf(j.f, C(x, y)))
SetSide(t, m, n, im, c) == Ten(t.x, t.y, t.z, LAMBDA x, y, z : CASE m = "z" -> (IF z = n THEN ColAt(im, x, y)[c] ELSE TAt(t, x, y, z)) [] m = "x" -> (IF x = n THEN ColAt(im, y, z)[c] ELSE TAt(t, x, y, z)) [] m = "y" -> (IF y = n THEN ColAt(im, x, z)[c] ELSE TAt(t, x, y, z)))
IdxOk(t, v) == \A i \in 1..4 : v[i] = -1 \/ v[i] \in 0..(t.z - 1)
FourCol(t, v, x, y) == [i \in 1..4 |-> IF v[i] >= 0 THEN TAt(t, x, y, v[i]) ELSE IF i = 4 THEN U ELSE 0]
LastIdx(v, z) == LET S == {i \in 1..4 : v[i] = z} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* --- one operation on register k: [s, r] *)
LockOk == {"lock", "unlock", "info", "sizes", "set", "get", "conv", "resize", "crop", "shrink", "genmm", "bump"}
Regs(m, a) == {a[1]} \cup (IF m \in {"blit", "blend", "copyto", "getrect"} THEN {a[2]} ELSE IF m \in {"blitm", "blendm"} THEN {a[2], a[3]} ELSE IF m = "saveload" THEN {a[3]} ELSE {})
DoI(st, m, a, b) == LET k == a[1] g == st[k] x == a[2] Put(i) == [s |-> [st EXCEPT ![k] = i], r |-> "none"] Out(r) == [s |-> st, r |-> r] Ref == Out("refused") IN
  IF m \notin LockOk /\ (\E r \in Regs(m, a) : st[r].lk) THEN Ref ELSE
  CASE m = "new" -> (IF Len(x) = 5 THEN Put(IF DimOk(x[1], x[2], x[4]) THEN New(x[1], x[2], x[3], x[4]) ELSE [Empty EXCEPT !.mm = x[3]]) ELSE IF DimOk(x[1], x[2], x[4]) THEN Put(New(x[1], x[2], x[3], x[4])) ELSE Out("none"))
    [] m = "data" -> (LET ok == DimOk(x[1], x[2], x[4]) /\ Len(a[3]) = Size(x[1], x[2], x[4], x[3]) IN IF ok THEN Put([Plain(x[1], x[2], x[4], a[3]) EXCEPT !.mm = x[3]]) ELSE IF Len(x) = 5 THEN Put([Empty EXCEPT !.mm = x[3]]) ELSE Out("none"))
    [] m = "xpm" -> (LET al == \E i \in 1..Len(x.pal) : x.pal[i] = <<255, 0, 255>> IN Put(Plain(x.w, x.h, IF al THEN 5 ELSE 4, FlatXY(x.w, x.h, IF al THEN 4 ELSE 3, LAMBDA u, v : LET c == x.pal[x.px[v * x.w + u + 1] + 1] IN IF ~al THEN c ELSE IF c = <<255, 0, 255>> THEN <<0, 0, 0, 0>> ELSE c \o <<255>>))))
    [] m = "lock" -> (IF g.d = <<>> THEN Out("none") ELSE Put([g EXCEPT !.lk = TRUE])) [] m = "unlock" -> Put([g EXCEPT !.lk = FALSE])
    [] m = "info" -> (LET n == IF g.mm THEN MipN(g.w, g.h) ELSE 0 B(i) == Pixels(g.w, g.h, i) * Bpp(g.f) IN Out(<<<<g.w, g.h, n, IF Po2(g.w, 1) = g.w /\ Po2(g.h, 1) = g.h THEN 1 ELSE 0, 0, IF g.d = <<>> THEN 1 ELSE 0>>>>
         \o [i \in 1..(n + 1) |-> LET s == B(i) - B(i - 1) IN <<B(i - 1), B(i - 1), s, B(i - 1), s>> \o Dims(g.w, g.h, i - 1)]))
    [] m = "sizes" -> Out(<<Pixels(x[1], x[2], IF x[3] THEN MipN(x[1], x[2]) + 1 ELSE 1) * Bpp(x[4]), MipN(x[1], x[2]), Pixels(x[1], x[2], MaxI(0, x[5])) * Bpp(x[4]), Bpp(x[4]), Names[x[4] + 1]>>)
    [] m = "set" -> (IF In(g, x[1], x[2]) THEN Put(Paint(g, LAMBDA u, v : IF u = x[1] /\ v = x[2] THEN PxOf(g.f, a[3]) ELSE PxAt(g, u, v))) ELSE Out("none"))
    [] m = "get" -> Out(IF In(g, x[1], x[2]) THEN ColAt(g, x[1], x[2]) ELSE <<0, 0, 0, U>>)
    [] m = "copyto" -> [s |-> [st EXCEPT ![x] = g], r |-> "none"]
    [] m = "getrect" -> (LET r == a[3] n == New(r[3], r[4], g.mm, g.f) j == Blit(n, g, r, <<0, 0>>, LAMBDA u, v : TRUE) any == [i \in 1..(Len(n.d) - BaseN(n)) |-> IF b < 0 THEN Bot(g.f) ELSE Top(g.f, (((i - 1) % Ch(g.f))) + 1)] IN
         [s |-> [st EXCEPT ![x] = IF DimOk(r[3], r[4], 0) THEN [j EXCEPT !.d = Base(j) \o any] ELSE [Empty EXCEPT !.mm = g.mm]], r |-> "none"])
    [] m = "conv" -> Put(Conv(g, x, b)) [] m = "fill" -> Put(FillR(g, <<0, 0, g.w, g.h>>, x)) [] m = "fillr" -> Put(FillR(g, x, a[3]))
    [] m = "flipx" -> Put(Flip(g, TRUE, FALSE)) [] m = "flipy" -> Put(Flip(g, FALSE, TRUE)) [] m = "crop" -> Put(Crop(g, x[1], x[2], x[3], x[4]))
    [] m = "resize" -> (IF x[3] = 3 /\ IsFl(g.f) THEN Ref ELSE Put(Resize(g, x[1], x[2], x[3], b)))
    [] m = "po2" -> (LET w == Po2(g.w, 1) h == Po2(g.h, 1) z == MaxI(w, h) IN IF x[2] = 3 /\ IsFl(g.f) THEN Ref ELSE Put(Resize(g, IF x[1] THEN z ELSE w, IF x[1] THEN z ELSE h, x[2], b)))
    [] m = "shrink" -> Put(Shrink(g)) [] m = "genmm" -> (LET o == GenMm(g) IN [Put(o.s) EXCEPT !.r = o.r]) [] m = "clrmm" -> Put(NoMm(g)) [] m = "clear" -> Put([g EXCEPT !.w = 0, !.h = 0, !.d = <<>>])
    [] m = "used" -> Out(Used(g)) [] m = "alpha" -> Out(AlphaKind(g)) [] m = "invis" -> Out(IF g.d = <<>> THEN "any" ELSE Invisible(g)) [] m = "chan" -> Out(Channels(g)) [] m = "opt" -> Put(Conv(g, Channels(g), b))
    [] m = "premul" -> Put(PreM(g, b)) [] m = "linear" -> Put(Linear(g, b)) [] m = "toxy" -> Put(ToXY(g)) [] m = "bump" -> Put(Bump(g, x, b)) [] m = "edges" -> Put(Edges(g))
    [] m = "blit" -> (IF x = k THEN Ref ELSE Put(Blit(g, st[x], a[4], a[5], LAMBDA u, v : TRUE)))
    [] m = "blitm" -> (LET s == st[x] q == st[a[3]] IN IF x = k \/ a[3] = k THEN Ref ELSE IF ~MaskOk(s, q) THEN Out("none") ELSE Put(Blit(g, s, a[4], a[5], LAMBDA u, v : Alpha(q, u, v) # 0)))
    [] m = "blend" -> (IF x = k \/ g.f > 5 THEN Ref ELSE Put(Blend(g, st[x], a[4], a[5], LAMBDA u, v : TRUE, b)))
    [] m = "blendm" -> (LET s == st[x] q == st[a[3]] IN IF x = k \/ a[3] = k \/ g.f > 5 THEN Ref ELSE IF ~MaskOk(s, q) THEN Out("none") ELSE Put(Blend(g, s, a[4], a[5], LAMBDA u, v : Alpha(q, u, v) # 0, b)))
    [] m = "saveload" -> (LET j == a[3] p == Plain(g.w, g.h, 5, Base(g)) clear == \A i \in 0..(g.w * g.h - 1) : PxAt(p, (i % g.w), i \div g.w)[4] = 0
         q == IF b > 0 /\ x = "bmp" /\ clear THEN Paint(p, LAMBDA u, v : SubSeq(PxAt(p, u, v), 1, 3) \o <<255>>) ELSE p IN
         IF IsFl(g.f) THEN Out("unavailable") ELSE IF g.w = 0 \/ g.h = 0 THEN Out("failed") ELSE IF Packed(g.f) THEN Ref ELSE IF g.f # 5 THEN Out("ok") ELSE [s |-> [st EXCEPT ![j] = Conv(q, a[4], b)], r |-> "ok"])
    [] m = "frommat" -> (IF x = <<>> THEN Put(IF a[3] THEN Empty ELSE [g EXCEPT !.w = 0, !.h = 0, !.d = <<>>]) ELSE Put(Plain(Len(x[1]), Len(x), 0, FlatXY(Len(x[1]), Len(x), 1, LAMBDA u, v : <<L8(x[v + 1][u + 1])>>))))
    [] m = "tomat" -> (IF x \notin 0..3 THEN Out(a[3]) ELSE Out([v \in 1..g.h |-> [u \in 1..g.w |-> ColAt(g, u - 1, v - 1)[x + 1]]]))
    [] m \in {"zget", "xget", "yget"} -> (LET d == SubSeq(m, 1, 1) n == a[3] s == Side(x, d, n) IN IF n \notin 0..(s.n - 1) THEN Out("null") ELSE IF TLen(x) = 0 THEN Put(Empty) ELSE Put(Plain(s.w, s.h, 0, FlatXY(s.w, s.h, 1, LAMBDA u, v : <<L8(SideAt(x, d, n, u, v))>>))))
    [] m = "zsget" -> (LET v == a[3] IN IF ~IdxOk(x, v) THEN Out("null") ELSE IF TLen(x) = 0 THEN Put(Empty) ELSE Put(Plain(x.x, x.y, 5, FlatXY(x.x, x.y, 4, LAMBDA u, w : PxOf(5, FourCol(x, v, u, w))))))
    [] m \in {"zinto", "xinto", "yinto"} -> (LET d == SubSeq(m, 1, 1) n == a[3] s == Side(x, d, n) cs == Chans(a[4]) IN IF n \notin 0..(s.n - 1) \/ cs = <<>> THEN Out("none") ELSE IF TLen(x) = 0 THEN Put([g EXCEPT !.w = 0, !.h = 0, !.d = <<>>])
         ELSE Put(Into(g, s.w, s.h, LAMBDA u, v : [i \in 1..4 |-> IF Bit(a[4], i) THEN SideAt(x, d, n, u, v) ELSE IF i = 4 THEN U ELSE 0])))
    [] m = "zsinto" -> (LET v == a[3] IN IF ~IdxOk(x, v) THEN Out("none") ELSE IF TLen(x) = 0 THEN Put([g EXCEPT !.w = 0, !.h = 0, !.d = <<>>]) ELSE Put(Into(g, x.x, x.y, LAMBDA u, w : FourCol(x, v, u, w))))
    [] m = "zadd" -> (LET cs == Chans(a[3]) t == IF x.x = 0 /\ x.y = 0 /\ x.z = 0 THEN [x |-> g.w, y |-> g.h, z |-> 0, d |-> <<>>] ELSE x IN IF cs = <<>> \/ g.w # t.x \/ g.h # t.y THEN Out(x) ELSE
         Out(Ten(t.x, t.y, t.z + Len(cs), LAMBDA u, v, w : IF w < t.z THEN TAt(t, u, v, w) ELSE ColAt(g, u, v)[cs[w - t.z + 1]])))
    [] m \in {"zset", "xset", "yset"} -> (LET d == SubSeq(m, 1, 1) n == a[3] s == Side(x, d, n) cs == Chans(a[4]) IN IF n \notin 0..(s.n - 1) \/ cs = <<>> \/ g.w # s.w \/ g.h # s.h THEN Out(x) ELSE Out(SetSide(x, d, n, g, cs[1])))
    [] m = "zsset" -> (LET v == a[3] IN IF ~IdxOk(x, v) \/ g.w # x.x \/ g.h # x.y THEN Out(x) ELSE Out(Ten(x.x, x.y, x.z, LAMBDA u, w, z : LET i == LastIdx(v, z) IN IF i = 0 THEN TAt(x, u, w, z) ELSE ColAt(g, u, w)[i])))
    [] m = "tfrom" -> (LET cs == Chans(a[3]) IN IF cs = <<>> THEN Out(x) ELSE Out(Ten(g.w, g.h, Len(cs), LAMBDA u, v, w : ColAt(g, u, v)[cs[w + 1]])))
ImgDo(st, e, b) == DoI(st, e.a[1], Tail(e.a), b)
===========================================================================
