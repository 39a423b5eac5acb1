------------------------------- MODULE SclOps -------------------------------
(* Scalar mathematics, pseudo random numbers, byte encodings and hashes.  *)
(* Machine words are sequences of bytes, least significant first, so that *)
(* arithmetic modulo 2^32 and 2^64 is written out on small integers.      *)
EXTENDS Rl, FiniteSets
(* --- machine words --- *)
BitsOf(a) == Strict([i \in 0..(8 * Len(a) - 1) |-> (a[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2])
ByteAt(f, k) == f[8*k] + 2*f[8*k+1] + 4*f[8*k+2] + 8*f[8*k+3] + 16*f[8*k+4] + 32*f[8*k+5] + 64*f[8*k+6] + 128*f[8*k+7]
WordOf(f, n) == Strict([k \in 1..n |-> ByteAt(f, k - 1)])
Bitwise(G(_), a) == LET f == Strict([i \in 0..(8 * Len(a) - 1) |-> G(i)]) IN WordOf(f, Len(a))
WXor(a, b) == LET x == BitsOf(a) y == BitsOf(b) G(i) == (x[i] + y[i]) % 2 IN Bitwise(G, a)
WNot(a) == Strict([k \in 1..Len(a) |-> 255 - a[k]])
WShr(a, s) == LET x == BitsOf(a) G(i) == IF i + s < 8 * Len(a) THEN x[i + s] ELSE 0 IN Bitwise(G, a)
WShl(a, s) == LET x == BitsOf(a) G(i) == IF i >= s THEN x[i - s] ELSE 0 IN Bitwise(G, a)
WRotl(a, s) == LET x == BitsOf(a) n == 8 * Len(a) G(i) == x[(i + n - s) % n] IN Bitwise(G, a)
RECURSIVE Limbs(_, _, _)
Limbs(cols, c, acc) == IF cols = <<>> THEN acc ELSE LET s == Head(cols) + c IN Limbs(Tail(cols), s \div 256, Append(acc, s % 256))
WAdd(a, b) == Limbs(Strict([k \in 1..Len(a) |-> a[k] + b[k]]), 0, <<>>)
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1)
WMul(a, b) == Limbs(Strict([k \in 1..Len(a) |-> ColSum(a, b, k, 1)]), 0, <<>>)
RECURSIVE WVal(_)
WVal(a) == IF a = <<>> THEN 0 ELSE RAdd(Head(a), RMul(256, WVal(Tail(a))))
RECURSIVE WOf(_, _)
WOf(v, n) == IF n = 0 THEN <<>> ELSE LET q == RFun("floor", RDiv(v, 256)) IN <<RTrunc(RSub(v, RMul(256, q)))>> \o WOf(q, n - 1)
RMod(a, b) == RSub(a, RMul(b, RFun("floor", RDiv(a, b))))      \* exact below 2^53
Low(a, n) == SubSeq(a, 1, n)
Word32(v) == WOf(v, 4)
Wide(a, n) == Strict([k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE 0])
(* --- PCG32: a generator is its state, its increment and the seed it was given --- *)
Mult == <<45, 127, 149, 76, 45, 244, 81, 88>>                   \* 6364136223846793005
Inc0 == <<79, 129, 103, 247, 126, 123, 5, 20>>                  \* 1442695040888963407
Seed0 == <<219, 115, 141, 131, 151, 56, 50, 167>>                \* 12047754176567800795
Zero64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
PStep(g) == [g EXCEPT !.s = WAdd(WMul(g.s, Mult), g.inc)]
Out(g) == LET x == BitsOf(g.s) xs == [i \in 0..31 |-> IF 27 + i + 18 < 64 THEN (x[27 + i + 18] + x[27 + i]) % 2 ELSE x[27 + i]]
              rot == x[59] + 2*x[60] + 4*x[61] + 8*x[62] + 16*x[63] f == Strict([i \in 0..31 |-> xs[(i + rot) % 32]]) IN WordOf(f, 4)
Seeded(seed, inc) == LET a == PStep([s |-> Zero64, inc |-> inc, seed |-> seed]) IN Strict(PStep([a EXCEPT !.s = WAdd(a.s, seed)]))
IncOf(seq) == LET d == WShl(seq, 1) IN Strict([k \in 1..8 |-> IF k = 1 THEN d[1] + 1 ELSE d[k]])
NewGen(seed, seq) == Seeded(seed, IncOf(seq))
RECURSIVE Bounded(_, _)
Bounded(g, b) == LET v == WVal(Out(g)) n == Strict(PStep(g)) IN IF RLe(RMod(R("4294967296"), b), v) THEN <<n, RMod(v, b)>> ELSE Bounded(n, b)
Clz(w) == LET x == BitsOf(w) IN CHOOSE k \in 0..32 : (\A i \in 0..(k - 1) : x[31 - i] = 0) /\ (k = 32 \/ x[31 - k] = 1)
OnTop(w) == [w EXCEPT ![4] = IF @ < 128 THEN @ + 128 ELSE @]
OnLow(w) == [w EXCEPT ![1] = IF @ % 2 = 0 THEN @ + 1 ELSE @]
(* a number in [0, 1] from three words; the two halves may be drawn in either order *)
Wide64(h, l) == RAdd(RMul(WVal(OnTop(h)), R("4294967296")), WVal(OnLow(l)))
RandD(g) == LET p == Out(g) a == Strict(PStep(g)) b == Strict(PStep(a)) IN IF p = <<0, 0, 0, 0>> THEN <<a, <<0>>>>
            ELSE LET k == RPow(2, -64 - Clz(p)) IN <<Strict(PStep(b)), Strict(<<RMul(Wide64(Out(a), Out(b)), k), RMul(Wide64(Out(b), Out(a)), k)>>)>>
RandF(g) == LET p == Out(g) a == Strict(PStep(g)) IN IF p = <<0, 0, 0, 0>> THEN <<a, 0>>
            ELSE <<Strict(PStep(a)), RMul(WVal(OnLow(OnTop(Out(a)))), RPow(2, -32 - Clz(p)))>>
UMax == R("4294967295")
(* --- IEEE numbers from their bits --- *)
RInfOf(neg) == IF neg THEN R("-Infinity") ELSE R("Infinity")
RECURSIVE Mant(_, _, _)
Mant(x, lo, hi) == IF lo > hi THEN 0 ELSE RAdd(RMul(x[lo], 1), RMul(2, Mant(x, lo + 1, hi)))
RECURSIVE Expo(_, _, _)
Expo(x, lo, hi) == IF lo > hi THEN 0 ELSE x[lo] + 2 * Expo(x, lo + 1, hi)
IeeeOf(w, m, bias) == LET n == 8 * Len(w) x == BitsOf(w) e == Expo(x, m, n - 2) f == RMul(Mant(x, 0, m - 1), RPow(2, -m)) top == 2 ^ (n - 1 - m) - 1
                          v == IF e = 0 THEN RMul(f, RPow(2, 1 - bias)) ELSE IF e = top THEN (IF REq(f, 0) THEN R("Infinity") ELSE R("NaN")) ELSE RMul(RAdd(1, f), RPow(2, e - bias)) IN
                      IF x[n - 1] = 1 THEN RNeg(v) ELSE v
FloatOf(w) == IeeeOf(w, 23, 127)
DoubleOf(w) == IeeeOf(w, 52, 1023)
HalfOf(w) == IeeeOf(w, 10, 15)
RECURSIVE Log2Fl(_, _)
Log2Fl(a, e) == IF RLe(RPow(2, e + 1), a) THEN Log2Fl(a, e + 1) ELSE IF RLt(a, RPow(2, e)) THEN Log2Fl(a, e - 1) ELSE e
(* the half number of a float: cut towards zero, too small becomes 0, too large infinity *)
HalfBits(v, neg) == LET a == RAbs(v) s == IF neg THEN 32768 ELSE 0 IN
   IF RLe(R("65536"), a) THEN s + 31744 ELSE IF RLt(a, RPow(2, -14)) THEN 0
   ELSE LET e == Log2Fl(a, 0) IN s + (e + 15) * 1024 + RTrunc(RMul(1024, RSub(RDiv(a, RPow(2, e)), 1)))
(* --- hashes --- *)
M1 == <<81, 45, 158, 204>>      \* cc9e2d51
M2 == <<147, 53, 135, 27>>      \* 1b873593
M5 == <<100, 107, 84, 230>>     \* e6546b64
Scramble(k) == WMul(WRotl(WMul(k, M1), 15), M2)
MurOne(k, h) == WAdd(WMul(WRotl(WXor(h, Scramble(k)), 13), <<5, 0, 0, 0>>), M5)
Fmix(h) == LET a == WMul(WXor(h, WShr(h, 16)), <<107, 202, 235, 133>>) b == WMul(WXor(a, WShr(a, 13)), <<53, 174, 178, 194>>) IN WXor(b, WShr(b, 16))
RECURSIVE MurBlocks(_, _)
MurBlocks(s, h) == IF Len(s) < 4 THEN (IF s = <<>> THEN h ELSE WXor(h, Scramble(Wide(s, 4)))) ELSE MurBlocks(SubSeq(s, 5, Len(s)), MurOne(SubSeq(s, 1, 4), h))
Murmur(s, h) == Fmix(WXor(MurBlocks(s, h), Word32(Len(s))))
MurSeed == <<101, 124, 240, 7>>
DjbOne(h, w) == WXor(WMul(h, Wide(<<33>>, Len(h))), Wide(w, Len(h)))
RECURSIVE Djb(_, _)
Djb(s, h) == IF s = <<>> THEN h ELSE Djb(Tail(s), DjbOne(h, <<Head(s)>>))
Djb0 == <<5, 21, 0, 0>>
Wang(v) == LET a == WAdd(WNot(v), WShl(v, 18)) b == WMul(WXor(a, WShr(a, 31)), Wide(<<21>>, 8)) c == WXor(b, WShr(b, 11)) d == WAdd(c, WShl(c, 6)) IN Low(WXor(d, WShr(d, 22)), 4)
(* the bits a number is hashed by: both zeros alike, all NaNs alike (any NaN bits) *)
IsNan(w, m) == LET n == 8 * Len(w) x == BitsOf(w) IN (\A i \in m..(n - 2) : x[i] = 1) /\ (\E i \in 0..(m - 1) : x[i] = 1)
IsZero(w) == LET x == BitsOf(w) IN \A i \in 0..(8 * Len(w) - 2) : x[i] = 0
Canon(w, m) == IF IsZero(w) THEN [k \in 1..Len(w) |-> 0] ELSE IF IsNan(w, m) THEN (IF Len(w) = 4 THEN <<0, 0, 192, 127>> ELSE <<0, 0, 0, 0, 0, 0, 248, 127>>) ELSE w
(* --- integers --- *)
FloorMod(a, b) == RSub(a, RMul(b, RFun("floor", RDiv(a, b))))
RECURSIVE Pow2Ge(_, _)
Pow2Ge(x, p) == IF RLe(x, p) THEN p ELSE Pow2Ge(x, RMul(2, p))
NextP2(x) == IF REq(x, 0) THEN 0 ELSE Pow2Ge(x, 1)
PrevP2(x) == IF REq(x, 0) THEN 0 ELSE IF REq(NextP2(x), x) THEN x ELSE RDiv(NextP2(x), 2)
Primes == <<5, 13, 23, 47, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613, 393241, 786433, 1572869, 3145739, 6291469, 12582917, 25165843, 50331653, 100663319, 201326611, 402653189, 805306457, 1610612741>>
LargerPrime(v) == LET S == {k \in 1..Len(Primes) : RLt(v, Primes[k])} IN IF S = {} THEN 0 ELSE Primes[CHOOSE k \in S : \A j \in S : k <= j]
(* --- real functions --- *)
Tau == R("6.283185307179586")
Eps == R("1e-5")
Lerp(a, b, w) == RAdd(a, RMul(RSub(b, a), w))
Clamp01(x) == RMax(0, RMin(1, x))
Shortest(d) == LET m == FloorMod(d, Tau) IN IF RLt(RDiv(Tau, 2), m) THEN RSub(m, Tau) ELSE m
Cubic(a, b, pre, post, w) == LET w2 == RMul(w, w) w3 == RMul(w2, w) IN RMul(R("0.5"), RSum(<<RMul(2, a), RMul(RSub(b, pre), w), RMul(RSum(<<RMul(2, pre), RMul(-5, a), RMul(4, b), RNeg(post)>>), w2), RMul(RSum(<<RNeg(pre), RMul(3, a), RMul(-3, b), post>>), w3)>>))
Bezier(a, c, d, b, t) == LET L(x, y) == Lerp(x, y, t) p == L(a, c) q == L(c, d) r == L(d, b) IN L(L(p, q), L(q, r))
Smooth(a, b, s) == LET t == Clamp01(RDiv(RSub(s, a), RSub(b, a))) IN RMul(RMul(t, t), RSub(3, RMul(2, t)))
Toward(a, b, d) == IF RLe(RAbs(RSub(b, a)), d) THEN b ELSE RAdd(a, RMul(RSign(RSub(b, a)), d))
Wrap(v, lo, hi) == IF REq(lo, hi) THEN lo ELSE RAdd(lo, FloorMod(RSub(v, lo), RSub(hi, lo)))
Triangle(v, l) == IF REq(l, 0) THEN 0 ELSE LET m == FloorMod(v, RMul(2, l)) IN RAbs(IF RLe(RAbs(m), RAbs(l)) THEN m ELSE RSub(RMul(2, l), m))
Ease(x0, c) == LET x == Clamp01(x0) h == R("0.5") IN
   IF REq(c, 0) THEN 0 ELSE IF RLt(0, c) THEN (IF RLt(c, 1) THEN RSub(1, RPow(RSub(1, x), RDiv(1, c))) ELSE RPow(x, c))
   ELSE IF RLt(x, h) THEN RMul(h, RPow(RMul(2, x), RNeg(c))) ELSE RSub(1, RMul(h, RPow(RSub(2, RMul(2, x)), RNeg(c))))
(* place of the first decimal digit that is not zero, 0 if there is none among nine *)
Decimals(x) == LET f == RSub(RAbs(x), RFun("floor", RAbs(x))) S == {k \in 0..9 : RLe(RMul(R("0.9999"), RPow(10, -k)), f)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Snap(v, s) == IF REq(s, 0) THEN v ELSE RMul(s, RFun("floor", RAdd(RDiv(v, s), R("0.5"))))
SnapSep(o, s, v, p) == IF REq(s, 0) THEN v ELSE LET a == RAdd(o, Snap(RSub(v, o), RAdd(s, p))) b == IF RLe(0, v) THEN RSub(a, p) ELSE RAdd(a, s) IN IF RLt(RAbs(RSub(v, a)), RAbs(RSub(v, b))) THEN a ELSE b
Dectime(v, n, s) == LET r == RMax(0, RSub(RAbs(v), RMul(n, s))) IN IF RLt(v, 0) THEN RNeg(r) ELSE r
Close(a, b) == REq(a, b) \/ RLt(RAbs(RSub(a, b)), RMax(Eps, RMul(Eps, RAbs(a))))
CloseRatio(a, b, e, m) == LET d == RAbs(RSub(a, b)) IN REq(d, 0) \/ RLt(d, m) \/ RLt(RDiv(d, RDiv(RAdd(RAbs(a), RAbs(b)), 2)), e)
Sinc(x) == IF REq(x, 0) THEN 1 ELSE RDiv(RFun("sin", x), x)
Bool(x) == IF x THEN 1 ELSE 0
Scalar(f, a) == CASE f \in {"sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "sqrt", "floor", "ceil", "round", "exp", "erf", "log10", "abs"} -> RFun(f, a[1])
  [] f = "asin" -> RFun("asin", RMax(-1, RMin(1, a[1]))) [] f = "acos" -> RFun("acos", RMax(-1, RMin(1, a[1]))) [] f = "atan2" -> RAtan2(a[1], a[2]) [] f = "pow" -> RPow(a[1], a[2])
  [] f = "sinc" -> Sinc(a[1]) [] f = "sincn" -> Sinc(RMul(RPi, a[1])) [] f = "log" -> RLn(a[1]) [] f = "log2" -> RDiv(RLn(a[1]), RLn(2)) [] f = "log1p" -> RLn(RAdd(1, a[1])) [] f = "exp2" -> RPow(2, a[1])
  [] f = "fmod" -> LET m == FloorMod(RAbs(a[1]), RAbs(a[2])) IN IF RLt(a[1], 0) THEN RNeg(m) ELSE m
  [] f \in {"fposmod", "fposmodp"} -> FloorMod(a[1], a[2]) [] f = "deg2rad" -> RDiv(RMul(a[1], RPi), 180) [] f = "rad2deg" -> RDiv(RMul(a[1], 180), RPi)
  [] f = "lerp" -> Lerp(a[1], a[2], a[3]) [] f = "lerp_angle" -> RAdd(a[1], RMul(a[3], Shortest(RSub(a[2], a[1])))) [] f = "inverse_lerp" -> RDiv(RSub(a[3], a[1]), RSub(a[2], a[1]))
  [] f = "range_lerp" -> Lerp(a[4], a[5], RDiv(RSub(a[1], a[2]), RSub(a[3], a[2]))) [] f = "cubic" -> Cubic(a[1], a[2], a[3], a[4], a[5]) [] f = "bezier" -> Bezier(a[1], a[2], a[3], a[4], a[5])
  [] f = "smoothstep" -> Smooth(a[1], a[2], a[3]) [] f = "move_toward" -> Toward(a[1], a[2], a[3]) [] f = "linear2db" -> RMul(20, RFun("log10", a[1])) [] f = "db2linear" -> RPow(10, RDiv(a[1], 20))
  [] f = "wrapf" -> Wrap(a[1], a[2], a[3]) [] f = "fract" -> RSub(a[1], RFun("floor", a[1])) [] f = "pingpong" -> Triangle(a[1], a[2])
  [] f = "ease" -> Ease(a[1], a[2]) [] f = "step_decimals" -> Decimals(a[1]) [] f = "range_step_decimals" -> (IF RLt(a[1], R("1e-13")) THEN 16 ELSE Decimals(a[1]))
  [] f = "stepify" -> Snap(a[1], a[2]) [] f = "dectime" -> Dectime(a[1], a[2], a[3]) [] f = "snap_scalar" -> (IF REq(a[2], 0) THEN a[3] ELSE RAdd(a[1], Snap(RSub(a[3], a[1]), a[2]))) [] f = "snap_sep" -> SnapSep(a[1], a[2], a[3], a[4])
  [] f = "approx" -> Bool(Close(a[1], a[2])) [] f = "approxt" -> Bool(REq(a[1], a[2]) \/ RLt(RAbs(RSub(a[1], a[2])), a[3])) [] f = "zeroa" -> Bool(RLt(RAbs(a[1]), Eps)) [] f = "ratio" -> Bool(CloseRatio(a[1], a[2], a[3], a[4]))
  [] f = "ftoi" -> RFun("round", a[1]) [] f = "wrapi" -> Wrap(a[1], a[2], a[3]) [] f = "posmod" -> (IF REq(a[2], 0) THEN 0 ELSE FloorMod(a[1], a[2])) [] f = "absi" -> RAbs(a[1])
  [] f = "larger_prime" -> LargerPrime(a[1]) [] f = "next2" -> NextP2(a[1]) [] f = "prev2" -> PrevP2(a[1]) [] f = "close2" -> (LET n == NextP2(a[1]) p == PrevP2(a[1]) IN IF RLt(RSub(a[1], p), RSub(n, a[1])) THEN p ELSE n)
  [] f = "near2" -> NextP2(a[1]) [] f = "nshift" -> (IF REq(a[1], 0) THEN 0 ELSE Log2Fl(a[1], 0) + 1) [] f = "shift2" -> (IF ~REq(a[1], 0) /\ REq(NextP2(a[1]), a[1]) THEN Log2Fl(a[1], 0) ELSE -1)
  [] f = "isnan" -> (LET v == DoubleOf(a[1]) IN Bool(~REq(v, v))) [] f = "isinf" -> (LET v == DoubleOf(a[1]) IN Bool(~RFinite(v) /\ REq(v, v)))
FloatToo == {"sin", "cos", "tan", "sinh", "cosh", "tanh", "atan", "sqrt", "floor", "ceil", "round", "exp", "erf", "log10", "abs", "asin", "acos", "atan2", "pow", "sinc", "sincn", "log", "log2", "log1p", "exp2", "fmod", "fposmod", "fposmodp", "deg2rad", "rad2deg", "lerp", "lerp_angle", "inverse_lerp", "range_lerp", "cubic", "bezier", "smoothstep", "move_toward", "linear2db", "db2linear", "wrapf", "fract", "pingpong", "approx", "approxt", "zeroa"}
Narrow == {"snap_scalar", "snap_sep"}          \* floats only
ScalarOk(f, a, r) == LET x == Scalar(f, a) IN
   IF f \in FloatToo THEN Len(r) = 2 /\ SameTol(r[1], x, "1e-10", "1e-11") /\ SameTol(r[2], x, "2e-5", "2e-5") ELSE IF f \in Narrow THEN SameTol(r[1], x, "2e-5", "2e-5") ELSE SameTol(r[1], x, "1e-11", "1e-12")
(* --- byte encodings: value, bytes written, returned length, value read back --- *)
Hash(f, a) == CASE f = "djb" -> Djb(a[1], Djb0) [] f = "djbbuf" -> Djb(a[1], a[2]) [] f = "djb32" -> DjbOne(a[2], a[1]) [] f = "djb64" -> DjbOne(a[2], a[1]) [] f = "wang" -> Wang(a[1])
  [] f = "mur32" -> MurOne(a[1], a[2]) [] f = "mur64" -> MurOne(SubSeq(a[1], 5, 8), MurOne(Low(a[1], 4), a[2])) [] f = "murbuf" -> Murmur(a[1], a[2]) [] f = "fmix" -> Fmix(a[1])
  [] f = "murf" -> MurOne(Canon(a[1], 23), MurSeed) [] f = "murd" -> (LET w == Canon(a[1], 52) IN MurOne(SubSeq(w, 5, 8), MurOne(Low(w, 4), MurSeed)))
  [] f = "djbf" -> WAdd(WMul(Djb0, <<33, 0, 0, 0>>), Wang(Canon(a[1], 52)))
=============================================================================
