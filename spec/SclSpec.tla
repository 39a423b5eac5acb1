------------------------------ MODULE SclSpec ------------------------------
(* State: two generators, one of the caller's own and the shared one of Math. *)
EXTENDS SclOps
InitState == <<NewGen(Seed0, Inc0), NewGen(Seed0, Inc0)>>
G(st, e) == st[e.a[1] + 1]
Next1(st, e) ==
  LET g == G(st, e) IN
  CASE e.op = "rnew" -> NewGen(e.a[2], e.a[3]) [] e.op = "rseed" -> Seeded(e.a[2], g.inc) [] e.op = "rset" -> [g EXCEPT !.s = e.a[2]]
  [] e.op \in {"rand", "mrandd", "mrandf"} -> Strict(PStep(g)) [] e.op = "bounded" -> Bounded(g, WVal(e.a[2]))[1] [] e.op \in {"randd", "randomd"} -> RandD(g)[1] [] e.op \in {"randf", "randomf"} -> RandF(g)[1]
  [] e.op = "randomi" -> (IF e.a[2] = e.a[3] THEN g ELSE Bounded(g, RAdd(RAbs(RSub(e.a[2], e.a[3])), 1))[1]) [] e.op = "randfn" -> RandD(RandD(g)[1])[1] [] OTHER -> g
After(st, e) == IF e.op \in {"M", "H", "enc", "half", "float", "fromseed"} THEN st ELSE [st EXCEPT ![e.a[1] + 1] = Strict(Next1(st, e))]
Normal(u, v, m, d) == RAdd(m, RMul(d, RMul(RFun("cos", RMul(Tau, u)), RSqrt(RMul(-2, RLn(v))))))
Conforms(st, e) == LET r == e.r a == e.a IN
  CASE e.op = "M" -> ScalarOk(a[1], a[2], r)
  [] e.op = "H" -> r = Hash(a[1], a[2])
  [] e.op = "enc" -> (* unsigned number, float, double or text: bytes written, their number, the value read back *)
       (CASE a[1] \in {"u2", "u4", "u8"} -> SameX(r, <<a[2], Len(a[2]), a[2]>>) [] a[1] = "f" -> SameX(r, <<a[2], 4, FloatOf(a[2])>>) [] a[1] = "d" -> SameX(r, <<a[2], 8, DoubleOf(a[2])>>)
          [] a[1] = "s" -> r = <<a[2] \o <<0>>, Len(a[2]) + 1, Len(a[2]) + 1>>)
  [] e.op = "half" -> (* a float given by its bits: the half number and the float that one stands for *)
       (LET v == FloatOf(a[1]) neg == a[1][4] >= 128 IN IF ~REq(v, v) THEN (r[1] % 32768) > 31744 /\ ~REq(r[2], r[2]) ELSE r[1] = HalfBits(v, neg) /\ SameX(r[2], HalfOf(<<r[1] % 256, r[1] \div 256>>)))
  [] e.op = "float" -> SameX(r, HalfOf(a[1]))
  [] e.op = "fromseed" -> (LET g == NewGen(a[1], Inc0) IN r = <<Out(g), PStep(g).s>>)
  [] e.op = "rand" -> r = Out(G(st, e)) [] e.op = "bounded" -> SameX(r, Bounded(G(st, e), WVal(a[2]))[2])
  [] e.op = "state" -> r = <<G(st, e).s, G(st, e).seed>>
  [] e.op = "randd" -> (\E k \in DOMAIN RandD(G(st, e))[2] : SameTol(r, RandD(G(st, e))[2][k], "1e-12", "1e-30")) /\ RLe(0, r) /\ RLe(r, 1)
  [] e.op = "randf" -> SameTol(r, RandF(G(st, e))[2], "1e-6", "1e-30") /\ RLe(0, r) /\ RLe(r, 1)
  [] e.op = "mrandd" -> SameTol(r, RDiv(WVal(Out(G(st, e))), UMax), "1e-12", "1e-30") [] e.op = "mrandf" -> SameTol(r, RDiv(WVal(Out(G(st, e))), UMax), "1e-6", "1e-30")
  [] e.op = "randomd" -> (LET s == RandD(G(st, e))[2] IN \E k \in DOMAIN s : SameTol(r, Lerp(a[2], a[3], s[k]), "1e-11", "1e-11"))
  [] e.op = "randomf" -> SameTol(r, Lerp(a[2], a[3], RandF(G(st, e))[2]), "1e-5", "1e-5")
  [] e.op = "randomi" -> (IF a[2] = a[3] THEN r = a[2] ELSE SameX(r, RAdd(RMin(a[2], a[3]), Bounded(G(st, e), RAdd(RAbs(RSub(a[2], a[3])), 1))[2])))
  [] e.op = "randfn" -> (LET x == RandD(G(st, e)) y == RandD(x[1])[2] IN \E i \in DOMAIN x[2] : \E j \in DOMAIN y : SameTol(r, Normal(x[2][i], y[j], a[2], a[3]), "1e-9", "1e-9") \/ SameTol(r, Normal(y[j], x[2][i], a[2], a[3]), "1e-9", "1e-9"))
  [] OTHER -> r = "none"
Expected(st, e) == CASE e.op = "M" -> Scalar(e.a[1], e.a[2]) [] e.op = "H" -> Hash(e.a[1], e.a[2]) [] e.op = "rand" -> Out(G(st, e)) [] e.op = "bounded" -> Bounded(G(st, e), WVal(e.a[2]))[2] [] e.op = "state" -> <<G(st, e).s, G(st, e).seed>>
  [] e.op = "randd" -> RandD(G(st, e))[2] [] e.op = "randf" -> RandF(G(st, e))[2] [] e.op = "fromseed" -> <<Out(NewGen(e.a[1], Inc0)), PStep(NewGen(e.a[1], Inc0)).s>> [] e.op = "half" -> HalfBits(FloatOf(e.a[1]), e.a[1][4] >= 128) [] e.op = "float" -> HalfOf(e.a[1]) [] OTHER -> "by the rules of SclSpec"
=============================================================================
