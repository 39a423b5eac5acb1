----------------------------- MODULE GeoTheory -----------------------------
(* The definitions of GeoOps on small grids: boxes are point sets, hits are points of a segment, colours survive being packed and written. *)
EXTENDS GeoOps
CONSTANTS D, M
VARIABLES x, y, z, on
Grid == [1..D -> 0..M]
TInit == x \in Grid /\ y \in Grid /\ z \in Grid /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<x, y, z>>
Wide == [1..D -> -1..(2 * M + 1)]
B == <<x, y>>
C == <<z, x>>
BoxesAreSets == on =>
  /\ Touches(B, C) = (\E p \in Wide : InClosed(B, p) /\ InClosed(C, p)) /\ Touches(B, C) = Touches(C, B) /\ Overlaps(B, C) = Overlaps(C, B) /\ (Overlaps(B, C) => Touches(B, C))
  /\ (Touches(B, C) => \A p \in Wide : InClosed(Common(B, C), p) = (InClosed(B, p) /\ InClosed(C, p)))
  /\ (Encloses(B, C) = \A p \in Wide : InClosed(C, p) => InClosed(B, p))
  /\ Encloses(Merge(B, C), B) /\ Encloses(Merge(B, C), C) /\ (Encloses(B, C) => Merge(B, C) = B /\ Common(B, C) = C)
  /\ \A p \in Wide : LET g == GrowBy(B, VAll(x, 1), VAll(x, 1)) IN InClosed(g, p) = \E q \in Wide : InClosed(B, q) /\ \A i \in 1..D : p[i] - q[i] \in -1..1
  /\ \A p \in Wide : LET e == Merge(B, <<p, VAll(p, 0)>>) IN InClosed(e, p) /\ Encloses(e, B)
(* the segment from z to z + step meets the box in a point with parameter k / 12 *)
Hits == on => \A d \in [1..D -> {-3, -2, -1, 0, 1, 2, 3}] : LET h == Hit(B, z, d, 0, 1) IN
  h.hit = \E k \in 0..12 : \A i \in 1..D : 12 * x[i] <= 12 * z[i] + k * d[i] /\ 12 * z[i] + k * d[i] <= 12 * (x[i] + y[i])
Vectors == on =>
  /\ Dot(x, y) = Dot(y, x) /\ Dot(x, VAdd(y, z)) = Dot(x, y) + Dot(x, z) /\ LexLt(x, y) = ~(LexLt(y, x) \/ x = y) /\ (LexLt(x, y) /\ LexLt(y, z) => LexLt(x, z))
  /\ RLe(Dist(x, z), RAdd(RAdd(Dist(x, y), Dist(y, z)), R("1e-12"))) /\ Lerp(x, y, 0) = x /\ Lerp(x, y, 1) = y
  /\ (D \in {2, 3} => LET c == Cross(x, y) IN (IF D = 3 THEN LenSq(c) ELSE c * c) + Dot(x, y) * Dot(x, y) = LenSq(x) * LenSq(y))
  /\ (D = 3 => Dot(Cross(x, y), x) = 0 /\ Dot(Cross(x, y), y) = 0 /\ Cross(y, x) = VNeg(Cross(x, y)))
  /\ (~IsZero(z) => LET n == Unit(z) IN Same(Dot(Slide(x, n), n), 0) /\ Same(Reflect(Reflect(x, n), n), x) /\ Same(LenSq(Reflect(x, n)), LenSq(x)) /\ Same(LenSq(n), 1))
  /\ (D = 2 => LET t == R("0.7") IN Same(Rot2(Rot2(x, t), RNeg(t)), x) /\ SameAngle(Angle(<<1, 0>>, Rot2(<<1, 0>>, t)), t))
  /\ (D = 3 /\ ~IsZero(z) => LET t == R("0.7") k == Unit(z) IN Same(Rot3(Rot3(x, k, t), k, RNeg(t)), x) /\ Same(Rot3(z, k, t), z) /\ Same(LenSq(Rot3(x, k, t)), LenSq(x)))
  /\ \A s \in 1..3 : LET v == Snap(2 * x[1] - y[1], s) IN (v % s) = 0 /\ 2 * (v - (2 * x[1] - y[1])) \in -s..s
(* x, y and z give a colour in which every channel is a multiple of 17 *)
Colour == [k \in 1..4 |-> 51 * (CASE k = 1 -> x[1] [] k = 2 -> y[1] [] k = 3 -> z[1] [] OTHER -> x[2]) + 17 * (IF k < 3 THEN y[2] ELSE z[2])]
Colours == on /\ M <= 3 => LET c == Unbytes(Colour, 255) IN Bytes(c, 255, <<1, 2, 3, 4>>) = Colour /\ Same(HtmlVal(HtmlTxt(c, TRUE)), c) /\ HtmlOk(HtmlTxt(c, FALSE)) /\ Bytes(Unbytes(Colour, 65535), 65535, <<4, 3, 2, 1>>) = <<Colour[4], Colour[3], Colour[2], Colour[1]>>
   /\ Same(LET h == Hsv(c) IN FromHsv(h[1], h[2], h[3], c[4]), c) /\ Same(Blend(c, <<0, 0, 0, 0>>), IF REq(c[4], 0) THEN <<0, 0, 0, 0>> ELSE c) /\ Same(Srgb(Linear(c[1])), c[1])
============================================================================
