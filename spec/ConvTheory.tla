---------------------------- MODULE ConvTheory ----------------------------
EXTENDS ConvSpec
(* design properties, model checked over all 0/1 images and small filters *)
VARIABLES img, flt
Img == {[r |-> 3, c |-> 3, d |-> f] : f \in {<<a, b, c>> : a \in [1..3 -> 0..1], b \in [1..3 -> 0..1], c \in {<<0, 1, 0>>, <<1, 1, 0>>}}}
Flt == {[r |-> 2, c |-> 2, d |-> f] : f \in {<<a, b>> : a \in [1..2 -> -1..1], b \in {<<0, 1>>, <<-1, 1>>}}}
TInit == img \in Img /\ flt \in Flt
TNext == UNCHANGED <<img, flt>>
Delta == [r |-> 3, c |-> 3, d |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 0>>>>]
SubSample(A, S) == LET G(i, j) == A.d[(i - 1) * S + 1][(j - 1) * S + 1] m == ((A.r - 1) \div S) + 1 IN Mk(m, m, G)
Flip(A) == LET G(i, j) == A.d[A.r + 1 - i][A.c + 1 - j] IN Mk(A.r, A.c, G)
(* the identity filter; linearity; a stride samples the dense map; flipping both operands flips the map *)
IdentityOk == Conv2(img, Delta, 1, 1) = img
LinearOk == Conv2(img, ScaleM(2, flt), 1, 1) = ScaleM(2, Conv2(img, flt, 1, 1))
StrideOk == \A S \in 1..3, P \in 0..2 : Conv2(img, flt, S, P) = SubSample(Conv2(img, flt, 1, P), S)
FlipOk == Conv2(Flip(img), Flip(flt), 1, 1) = Flip(Conv2(img, flt, 1, 1))
(* one tensor channel is the two dimensional case; two filters make two independent maps *)
TensOf(A, k) == [x |-> A.c, y |-> A.r, z |-> k, d |-> [t \in 1..k |-> A.d]]
DepthOk == /\ Conv3(TensOf(img, 1), TensOf(flt, 2), 1, 1).d = <<Conv2(img, flt, 1, 1).d, Conv2(img, flt, 1, 1).d>>
           /\ Conv3(TensOf(img, 2), TensOf(flt, 2), 1, 0).d = <<ScaleM(2, Conv2(img, flt, 1, 0)).d>>
PoolOk == \A f \in 1..3, S \in 1..2 :
  /\ Pool2(img, f, S, 2) = MapM(RNeg, Pool2(MapM(RNeg, img), f, S, 1))
  /\ (f = 1 /\ S = 1 => \A ty \in 0..2 : Same(Pool2(img, f, S, ty), img))
DerivOk == /\ Dy(img) = MapM(RNeg, Transpose(Dx(Transpose(img))))
           /\ \A i \in 1..3, j \in 1..3 : REq(GradMag(img).d[i][j], 0) <=> (Dx(img).d[i][j] = 0 /\ Dy(img).d[i][j] = 0)
===========================================================================
