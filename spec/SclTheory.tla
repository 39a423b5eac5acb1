------------------------------ MODULE SclTheory ------------------------------
(* Known answers of the published algorithms and the laws of the scalar functions. *)
EXTENDS SclOps
CONSTANTS N, Step8
VARIABLES a, b, w, on
TInit == a \in {k * Step8 : k \in -N..N} /\ b \in {k * Step8 : k \in -N..N} /\ w \in 0..8 /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<a, b, w>>
A == RDiv(a, 8)
B == RDiv(b, 8)
W == RDiv(w, 8)
Between(lo, x, hi) == RLe(lo, x) /\ RLe(x, hi)
Whole(x) == REq(x, RFun("floor", x))
Blend == on =>
  /\ Between(RMin(A, B), Lerp(A, B, W), RMax(A, B)) /\ SameX(Lerp(A, B, 0), A) /\ SameX(Lerp(A, B, 1), B)
  /\ Same(Bezier(A, Lerp(A, B, RDiv(1, 3)), Lerp(A, B, RDiv(2, 3)), B, W), Lerp(A, B, W)) /\ Same(Cubic(A, B, RSub(A, RSub(B, A)), RAdd(B, RSub(B, A)), W), Lerp(A, B, W)) /\ Same(Cubic(A, B, W, 3, 0), A) /\ Same(Cubic(A, B, W, 3, 1), B)
  /\ (~REq(A, B) => Between(0, Smooth(A, B, W), 1) /\ REq(Smooth(A, B, A), 0) /\ REq(Smooth(A, B, B), 1) /\ Same(Smooth(A, B, Lerp(A, B, R("0.5"))), R("0.5")) /\ Same(Smooth(A, B, Lerp(A, B, W)), RSub(1, Smooth(B, A, Lerp(A, B, W)))))
  /\ LET t == Toward(A, B, W) IN Between(RMin(A, B), t, RMax(A, B)) /\ (REq(t, B) \/ REq(RAbs(RSub(t, A)), W))
  /\ LET s == Shortest(RSub(B, A)) IN RLe(RAbs(s), R("3.14159265358980")) /\ LET k == RDiv(RSub(RSub(B, A), s), Tau) IN Same(k, RFun("round", k))
  /\ (w > 0 => /\ Between(0, FloorMod(A, W), W) /\ RLt(FloorMod(A, W), W) /\ Whole(RDiv(RSub(A, FloorMod(A, W)), W)) /\ RLe(FloorMod(A, RNeg(W)), 0) /\ RLt(RNeg(W), FloorMod(A, RNeg(W)))
        /\ LET v == Wrap(A, B, RAdd(B, W)) IN RLe(B, v) /\ RLt(v, RAdd(B, W)) /\ Whole(RDiv(RSub(v, A), W)) /\ REq(Wrap(RAdd(A, W), B, RAdd(B, W)), v)
        /\ LET z == Triangle(A, W) IN Between(0, z, W) /\ SameX(Triangle(RNeg(A), W), z) /\ Same(Triangle(RAdd(A, RMul(2, W)), W), z) /\ (Between(0, A, W) => REq(z, A))
        /\ LET u == Snap(A, W) IN Whole(RDiv(u, W)) /\ RLe(RMul(2, RAbs(RSub(u, A))), W) /\ Same(RAbs(Dectime(A, 1, W)), RMax(0, RSub(RAbs(A), W))))
  /\ (Between(0, A, 1) => LET e == Ease(A, B) IN Between(0, e, 1) /\ (~REq(B, 0) => REq(Ease(0, B), 0) /\ REq(Ease(1, B), 1)) /\ RLe(e, Ease(RMin(1, RAdd(A, W)), B)))
  /\ (Close(A, B) <=> a = b)
Known == (on /\ a = 0 /\ b = 0 /\ w = 0) =>
  /\ LET g == NewGen(<<42, 0, 0, 0, 0, 0, 0, 0>>, <<54, 0, 0, 0, 0, 0, 0, 0>>) IN Out(g) = <<183, 2, 92, 161>> /\ Out(PStep(g)) = <<9, 244, 71, 123>> /\ Out(PStep(PStep(g))) = <<48, 51, 29, 186>> /\ Out(PStep(PStep(PStep(g)))) = <<147, 242, 210, 131>>
  /\ Murmur(<<>>, <<0, 0, 0, 0>>) = <<0, 0, 0, 0>> /\ Murmur(<<>>, <<1, 0, 0, 0>>) = <<183, 40, 78, 81>> /\ Murmur(<<116, 101, 115, 116>>, <<0, 0, 0, 0>>) = <<19, 210, 107, 186>> /\ Murmur(<<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33>>, <<0, 0, 0, 0>>) = <<67, 62, 54, 192>>
  /\ \A k \in 1..Len(Primes) : (\A d \in 2..41000 : (d * d <= Primes[k] => (Primes[k] % d) # 0) \/ d > 46000) /\ (k > 1 => Primes[k] > Primes[k - 1])
  /\ \A x \in 1..70 : LET n == NextP2(x) p == PrevP2(x) IN p <= x /\ x <= n /\ (n = p \/ n = 2 * p) /\ n = 2 ^ Log2Fl(n, 0) /\ NextP2(n) = n
  /\ LET x == <<200, 7, 255, 1>> y == <<90, 201, 3, 250>> z == <<254, 255, 9, 77>> IN WMul(x, WAdd(y, z)) = WAdd(WMul(x, y), WMul(x, z)) /\ WMul(x, y) = WMul(y, x) /\ WXor(WXor(x, y), y) = x /\ WRotl(WRotl(x, 13), 19) = x /\ WOf(WVal(x), 4) = x /\ WAdd(x, WNot(x)) = <<255, 255, 255, 255>> /\ WShl(x, 3) = WMul(x, <<8, 0, 0, 0>>)
(* every normal half number is the half number of the float it stands for *)
Halves == (on /\ b = 0 /\ w = 0) => \A k \in {j \in 1024..31743 : (j % (2 * N + 1)) = a \div Step8 + N} : LET v == HalfOf(<<k % 256, k \div 256>>) IN HalfBits(v, FALSE) = k /\ HalfBits(RMul(v, R("1.0005")), FALSE) \in {k, k + 1} /\ REq(HalfOf(<<k % 256, k \div 256 + 128>>), RNeg(v))
Draws == (on /\ w = 0) => LET g == NewGen(<<(a + 1000) % 256, 1, 0, 0, 0, 0, 0, b + 100>>, Inc0) IN \A m \in {1, 2, 7, 100} : LET d == Bounded(g, m) IN Between(0, d[2], m - 1) /\ LET x == RandD(g)[2] IN \A i \in DOMAIN x : Between(0, x[i], 1)
==============================================================================
