------------------------------ MODULE VarOps ------------------------------
(* Dynamic values, arrays and dictionaries.  A value is a record with one    *)
(* field naming its kind: [n |-> 0] nothing, b, i, r (in 64ths), s text,     *)
(* nm name, ri rectangle, v2, v3, pools pb pi pr ps (by value), and the two  *)
(* shared containers [a |-> id] and [d |-> id], whose contents are in the    *)
(* heap h.  x maps the slots to values.  States are compared up to renaming  *)
(* of the ids (CanonH): what a program can see is which containers are the    *)
(* same, not where they are.                                                 *)
EXTENDS StrOps, TLC
N == [n |-> 0]
B(x) == [b |-> x]
I(x) == [i |-> x]
R64(x) == [r |-> x]
S(x) == [s |-> x]
None == [q |-> 0]
Ty(v) == CHOOSE k \in DOMAIN v : TRUE
Rank == [n |-> 0, b |-> 1, i |-> 2, r |-> 3, s |-> 4, ri |-> 6, v2 |-> 8, v3 |-> 10, nm |-> 22, d |-> 23, a |-> 24, pb |-> 25, pi |-> 26, pr |-> 27, ps |-> 28]
IsC(v) == Ty(v) \in {"a", "d"}
Id(v) == IF Ty(v) = "a" THEN v.a ELSE v.d
El(h, v) == h[Id(v)].c
InitState == [h |-> <<>>, x |-> [k \in {"x1", "x2", "x3", "x4"} |-> N]]
IsNum(v) == Ty(v) \in {"i", "r"}
Num(v) == IF Ty(v) = "i" THEN 64 * v.i ELSE v.r
IsT(v) == Ty(v) \in {"s", "nm"}
Txt(v) == IF Ty(v) = "s" THEN v.s ELSE v.nm
Seq0(v) == v[Ty(v)]
B3(x) == IF x THEN "T" ELSE "F"
(* --- canonical form *)
Mem(s, e) == \E i \in 1..Len(s) : s[i] = e
RECURSIVE AddRefs(_, _), Reach(_, _, _)
AddRefs(L, vs) == IF vs = <<>> THEN L ELSE AddRefs(IF IsC(Head(vs)) /\ ~Mem(L, Id(Head(vs))) THEN Append(L, Id(Head(vs))) ELSE L, Tail(vs))
Held(o) == IF o.t = "a" THEN o.c ELSE [i \in 1..Len(o.c) |-> o.c[i][2]]
Reach(h, L, i) == IF i > Len(L) THEN L ELSE Reach(h, AddRefs(L, Held(h[L[i]])), i + 1)
Slots(x) == <<x.x1, x.x2, x.x3, x.x4>>
CanonH(h, x, r) == LET L == Reach(h, AddRefs(<<>>, Slots(x) \o r), 1)
    At1(e) == CHOOSE i \in 1..Len(L) : L[i] = e
    Ren(v) == IF Ty(v) = "a" THEN [a |-> At1(v.a)] ELSE IF Ty(v) = "d" THEN [d |-> At1(v.d)] ELSE v
    RenO(o) == [t |-> o.t, c |-> IF o.t = "a" THEN MapC(Ren, o.c) ELSE [i \in 1..Len(o.c) |-> <<o.c[i][1], Ren(o.c[i][2])>>]] IN
  [s |-> [h |-> [i \in 1..Len(L) |-> RenO(h[L[i]])], x |-> [k \in DOMAIN x |-> Ren(x[k])]], r |-> MapC(Ren, r)]
Reaches(h, v, id) == IsC(v) /\ Mem(Reach(h, <<Id(v)>>, 1), id)
(* --- equality and order; "X": the two cannot be compared *)
RECURSIVE Eq(_, _, _), Less(_, _, _), LexV(_, _, _), DeepO(_, _, _), DeepU(_, _, _)
SEq(h, a, b) == Ty(a) = Ty(b) /\ Eq(h, a, b) = "T"
Eq(h, a, b) == LET t == Ty(a) u == Ty(b) IN
  IF t = "n" THEN B3(u = "n") ELSE IF u = "n" THEN "F"
  ELSE IF t \in {"i", "r"} THEN (IF IsNum(b) THEN B3(Num(a) = Num(b)) ELSE "X")
  ELSE IF IsT(a) THEN (IF IsT(b) THEN B3(Txt(a) = Txt(b)) ELSE "X")
  ELSE IF t # u THEN "X"
  ELSE IF t = "a" THEN (LET x == El(h, a) y == El(h, b) IN B3(Len(x) = Len(y) /\ \A i \in 1..Len(x) : SEq(h, x[i], y[i])))
  ELSE B3(a = b)
VLt(h, a, b) == IF Ty(a) # Ty(b) THEN Rank[Ty(a)] < Rank[Ty(b)] ELSE Less(h, a, b) = "T"
LexV(h, x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF VLt(h, x[1], y[1]) THEN TRUE ELSE IF VLt(h, y[1], x[1]) THEN FALSE ELSE LexV(h, Tail(x), Tail(y))
TxtSeq(x) == [i \in 1..Len(x) |-> S(x[i])]
IntSeq(x) == [i \in 1..Len(x) |-> I(x[i])]
Less(h, a, b) == LET t == Ty(a) u == Ty(b) IN
  IF t \in {"i", "r"} THEN (IF IsNum(b) THEN B3(Num(a) < Num(b)) ELSE "X")
  ELSE IF t = "s" THEN (IF IsT(b) THEN B3(Cmp(a.s, Txt(b)) < 0) ELSE "X")
  ELSE IF t # u THEN "X"
  ELSE IF t = "b" THEN B3(~a.b /\ b.b)
  ELSE IF t = "a" THEN B3(LexV(h, El(h, a), El(h, b)))
  ELSE IF t \in {"pb", "pi", "pr"} THEN B3(LexV(h, IntSeq(Seq0(a)), IntSeq(Seq0(b))))
  ELSE IF t \in {"v2", "v3"} THEN B3(LexV(h, IntSeq(Seq0(a)), IntSeq(Seq0(b))))
  ELSE IF t = "ps" THEN B3(LexV(h, TxtSeq(a.ps), TxtSeq(b.ps)))
  ELSE "X"
Greater(h, a, b) == LET t == Ty(a) IN IF IsNum(a) \/ t = "s" THEN (IF IsNum(a) THEN Less(h, b, a) ELSE IF IsT(b) THEN B3(Cmp(Txt(b), a.s) < 0) ELSE "X") ELSE IF t = Ty(b) THEN Less(h, b, a) ELSE "X"
NotEq(h, a, b) == LET e == Eq(h, a, b) IN IF e = "X" THEN "X" ELSE IF e = "T" THEN "F" ELSE "T"
Weak(h, a, b, l) == IF IsNum(a) /\ IsNum(b) THEN B3(IF l THEN Num(a) <= Num(b) ELSE Num(a) >= Num(b))
  ELSE IF Ty(a) = "s" /\ IsT(b) THEN B3(IF l THEN Cmp(a.s, Txt(b)) <= 0 ELSE Cmp(a.s, Txt(b)) >= 0) ELSE "X"
(* same contents throughout; U: whatever the order of the keys *)
DeepO(h, a, b) == IF Ty(a) # Ty(b) THEN FALSE
  ELSE IF Ty(a) = "a" THEN a = b \/ LET x == El(h, a) y == El(h, b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : DeepO(h, x[i], y[i])
  ELSE IF Ty(a) = "d" THEN a = b \/ LET x == El(h, a) y == El(h, b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : DeepO(h, x[i][1], y[i][1]) /\ DeepO(h, x[i][2], y[i][2])
  ELSE SEq(h, a, b)
DeepU(h, a, b) == IF Ty(a) # Ty(b) THEN FALSE
  ELSE IF Ty(a) = "a" THEN a = b \/ LET x == El(h, a) y == El(h, b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : DeepU(h, x[i], y[i])
  ELSE IF Ty(a) = "d" THEN a = b \/ LET x == El(h, a) y == El(h, b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : x[i][1] = y[j][1] /\ DeepU(h, x[i][2], y[j][2])
  ELSE SEq(h, a, b)
RECURSIVE HashEq(_, _, _)
HashEq(h, a, b) == Ty(a) = Ty(b) /\ IF Ty(a) = "a" THEN (LET x == El(h, a) y == El(h, b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : HashEq(h, x[i], y[i])) ELSE a = b
Bool(h, v) == LET t == Ty(v) IN CASE t = "n" -> FALSE [] t = "b" -> v.b [] t = "i" -> v.i # 0 [] t = "r" -> v.r # 0 [] IsT(v) -> Txt(v) # <<>> [] IsC(v) -> El(h, v) # <<>> [] t \in {"pb", "pi", "pr", "ps"} -> Seq0(v) # <<>> [] OTHER -> \E i \in 1..Len(Seq0(v)) : Seq0(v)[i] # 0
(* --- text *)
RECURSIVE Dec(_), Str(_, _), Pad0(_, _)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Abs(n) == IF n < 0 THEN -n ELSE n
IntS(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
Pad0(ds, n) == IF Len(ds) >= n THEN ds ELSE Pad0(<<48>> \o ds, n)
FracS(f) == Pad0(Dec(f * 15625), 6)           \* f 64ths, six exact decimals
RealS(x) == LET a == Abs(x) f == RStripC(FracS(a % 64), <<48>>) IN (IF x < 0 THEN <<45>> ELSE <<>>) \o Dec(a \div 64) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f)
ListS(xs) == <<91>> \o JoinS(xs, <<44, 32>>) \o <<93>>
SortT(ps) == SortSeq(ps, LAMBDA p, q : Cmp(p[1], q[1]) < 0)
Str(h, v) == LET t == Ty(v) IN
  CASE t = "n" -> <<78, 117, 108, 108>> [] t = "b" -> (IF v.b THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>) [] t = "i" -> IntS(v.i) [] t = "r" -> RealS(v.r) [] IsT(v) -> Txt(v)
    [] t = "a" -> ListS([i \in 1..Len(El(h, v)) |-> Str(h, El(h, v)[i])])
    [] t = "d" -> LET c == El(h, v) ps == SortT([i \in 1..Len(c) |-> <<Str(h, c[i][1]), Str(h, c[i][2])>>]) IN <<123>> \o JoinS([i \in 1..Len(ps) |-> ps[i][1] \o <<58>> \o ps[i][2]], <<44, 32>>) \o <<125>>
    [] t \in {"pb", "pi"} -> ListS(MapC(IntS, Seq0(v))) [] t = "pr" -> ListS(MapC(RealS, v.pr)) [] t = "ps" -> ListS(v.ps) [] OTHER -> <<>>
RECURSIVE TwinKeys(_, _)   \* two keys of a dictionary in it that read the same: their order is not defined
TwinKeys(h, v) == IsC(v) /\ LET c == El(h, v) IN IF Ty(v) = "a" THEN \E i \in 1..Len(c) : TwinKeys(h, c[i]) ELSE (\E i, j \in 1..Len(c) : i # j /\ Str(h, c[i][1]) = Str(h, c[j][1])) \/ \E i \in 1..Len(c) : TwinKeys(h, c[i][2])
(* --- numbers *)
Trunc(x, k) == IF x >= 0 THEN x \div k ELSE -((-x) \div k)
ParseI(s) == LET p == Find(s, <<46>>, 0) ds == SelC(Digit, IF p < 0 THEN s ELSE SubSeq(s, 1, p)) IN IF Neg(s) THEN -Small(ds) ELSE Small(ds)
ParseR(s) == LET t == SignedTail(s) ds == SubSeq(t, 1, Digits(t)) IN IF Neg(s) THEN -Small(ds) ELSE Small(ds)      \* the texts met here have no fractions
ToI(v) == LET t == Ty(v) IN CASE t = "b" -> (IF v.b THEN 1 ELSE 0) [] t = "i" -> v.i [] t = "r" -> Trunc(v.r, 64) [] t = "s" -> ParseI(v.s) [] OTHER -> 0
ToR(v) == LET t == Ty(v) IN CASE t = "r" -> v.r [] t = "s" -> 64 * ParseR(v.s) [] OTHER -> 64 * ToI(v)
RECURSIVE AndB(_, _), OrB(_, _)
AndB(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a ELSE 2 * AndB(a \div 2, b \div 2) + (a % 2) * (b % 2)
OrB(a, b) == -AndB(-a - 1, -b - 1) - 1
XorB(a, b) == OrB(a, b) - AndB(a, b)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Shl(a, n) == a * Pow2(n)
Shr(a, n) == IF n > 29 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2(n)
NumV(a, b, x) == IF Ty(a) = "i" /\ Ty(b) = "i" THEN I(Trunc(x, 64)) ELSE R64(x)
Div(a, b) == IF Ty(a) = "i" /\ Ty(b) = "i" THEN I(IF b.i > 0 THEN Trunc(a.i, b.i) ELSE Trunc(-a.i, -b.i)) ELSE (LET q == Num(a) * 64 IN IF q % Abs(Num(b)) = 0 THEN R64(IF Num(b) > 0 THEN q \div Num(b) ELSE -(q \div (-Num(b)))) ELSE None)
TV(x) == IF x = "X" THEN None ELSE B(x = "T")
In(h, a, b) == LET t == Ty(b) IN      \* a in b
  CASE t = "s" /\ Ty(a) = "s" -> B(Find(b.s, a.s, 0) >= 0)
    [] t = "d" -> B(\E i \in 1..Len(El(h, b)) : HashEq(h, El(h, b)[i][1], a)) [] t = "a" -> B(\E i \in 1..Len(El(h, b)) : Eq(h, El(h, b)[i], a) = "T")
    [] t \in {"pb", "pi"} /\ IsNum(a) -> B(Mem(Seq0(b), ToI(a))) [] t = "pr" /\ IsNum(a) -> B(Mem(b.pr, Num(a))) [] t = "ps" /\ Ty(a) = "s" -> B(Mem(b.ps, a.s)) [] OTHER -> None
Ops == <<"eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "div", "neg", "pos", "mod", "cat", "shl", "shr", "and", "or", "xor", "not", "land", "lor", "lxor", "lnot", "in">>
(* the value of one operator; an array it makes is [new |-> contents] *)
Ev(h, f, a, b) == LET ta == Ty(a) tb == Ty(b) nn == IsNum(a) /\ IsNum(b) ii == ta = "i" /\ tb = "i" z == IsNum(b) /\ Num(b) = 0 IN
  CASE f = "eq" -> TV(Eq(h, a, b)) [] f = "ne" -> TV(NotEq(h, a, b)) [] f = "lt" -> TV(Less(h, a, b)) [] f = "gt" -> TV(Greater(h, a, b)) [] f = "le" -> TV(Weak(h, a, b, TRUE)) [] f = "ge" -> TV(Weak(h, a, b, FALSE))
    [] f = "add" -> (IF nn THEN NumV(a, b, Num(a) + Num(b)) ELSE IF ta = "s" /\ IsT(b) THEN S(a.s \o Txt(b)) ELSE IF ta = "a" /\ tb = "a" THEN [new |-> El(h, a) \o El(h, b)] ELSE IF ta = tb /\ ta \in {"pb", "pi", "pr", "ps"} THEN [a EXCEPT ![ta] = a[ta] \o b[ta]] ELSE None)
    [] f = "sub" -> (IF nn THEN NumV(a, b, Num(a) - Num(b)) ELSE None)
    [] f = "mul" -> (IF nn THEN (IF ii THEN I(a.i * b.i) ELSE R64(Trunc(Num(a) * Num(b), 64))) ELSE None)
    [] f = "div" -> (IF nn /\ ~z THEN Div(a, b) ELSE None)
    [] f = "neg" -> (IF ta = "i" THEN I(-a.i) ELSE IF ta = "r" THEN R64(-a.r) ELSE None) [] f = "pos" -> (IF IsNum(a) THEN a ELSE None)
    [] f = "mod" -> (IF ii /\ ~z THEN I(a.i - b.i * Div(a, b).i) ELSE None)
    [] f = "cat" -> (IF TwinKeys(h, a) \/ TwinKeys(h, b) THEN None ELSE S(Str(h, a) \o Str(h, b)))
    [] f = "shl" -> (IF ii /\ b.i >= 0 /\ b.i < 64 THEN (IF b.i > 16 THEN None ELSE I(Shl(a.i, b.i))) ELSE None) [] f = "shr" -> (IF ii /\ b.i >= 0 /\ b.i < 64 THEN I(Shr(a.i, b.i)) ELSE None)
    [] f = "and" -> (IF ii THEN I(AndB(a.i, b.i)) ELSE None) [] f = "or" -> (IF ii THEN I(OrB(a.i, b.i)) ELSE None) [] f = "xor" -> (IF ii THEN I(XorB(a.i, b.i)) ELSE None) [] f = "not" -> (IF ta = "i" THEN I(-a.i - 1) ELSE None)
    [] f = "land" -> B(Bool(h, a) /\ Bool(h, b)) [] f = "lor" -> B(Bool(h, a) \/ Bool(h, b)) [] f = "lxor" -> B(Bool(h, a) # Bool(h, b)) [] f = "lnot" -> B(~Bool(h, a)) [] f = "in" -> In(h, a, b)
(* what is not pinned down: any answer will do *)
Free(h, f, a, b) == CASE f = "div" -> IsNum(a) /\ IsNum(b) /\ (Num(b) = 0 \/ Div(a, b) = None) [] f = "mul" -> IsNum(a) /\ IsNum(b) /\ ~(Ty(a) = "i" /\ Ty(b) = "i") /\ (Num(a) * Num(b)) % 64 # 0
  [] f = "mod" -> Ty(a) = "s" \/ (IsNum(a) /\ IsNum(b) /\ Num(b) = 0) [] f = "cat" -> TwinKeys(h, a) \/ TwinKeys(h, b) [] f = "shl" -> Ty(a) = "i" /\ Ty(b) = "i" /\ b.i > 16 /\ b.i < 64
  [] f = "in" -> IsNum(a) /\ Ty(b) \in {"pb", "pi"} /\ Num(a) % 64 # 0 [] OTHER -> FALSE
(* --- formatting: text with directives, a list of values *)
Bad == <<-1>>
Fill(n, w, c) == Rep(<<c>>, w - n)
Signs(ds, neg, o, zero) == LET sg == IF neg THEN <<45>> ELSE IF o.plus THEN <<43>> ELSE <<>> n == Len(ds) + Len(sg) IN
  IF o.left THEN sg \o ds \o Fill(n, o.w, 32) ELSE IF zero THEN sg \o Fill(n, o.w, 48) \o ds ELSE Fill(n, o.w, 32) \o sg \o ds
Fixed(x, d) == LET a == Abs(x) f == FracS(a % 64) IN Dec(a \div 64) \o (IF d = 0 THEN <<>> ELSE <<46>> \o SubSeq(f \o Rep(<<48>>, Max2(d - 6, 0)), 1, d))
Opt0 == [w |-> 0, dec |-> 6, zero |-> FALSE, left |-> FALSE, plus |-> FALSE, ind |-> FALSE]
Pads(t, o) == IF o.left THEN t \o Fill(Len(t), o.w, 32) ELSE Fill(Len(t), o.w, 32) \o t
RECURSIVE Fmt(_, _, _), Dir(_, _, _, _)
Join2(t, rest) == IF rest = Bad THEN Bad ELSE t \o rest
Fmt(h, s, vs) == IF s = <<>> THEN (IF vs = <<>> THEN <<>> ELSE Bad) ELSE IF s[1] = 37 THEN Dir(h, Tail(s), vs, Opt0) ELSE Join2(<<s[1]>>, Fmt(h, Tail(s), vs))
Dir(h, s, vs, o) == IF s = <<>> THEN Bad ELSE LET c == s[1] t == Tail(s) v == vs[1] IN
  CASE c = 37 -> Join2(<<37>>, Fmt(h, t, vs)) [] c = 45 -> Dir(h, t, vs, [o EXCEPT !.left = TRUE]) [] c = 43 -> Dir(h, t, vs, [o EXCEPT !.plus = TRUE])
    [] c = 46 -> (IF o.ind THEN Bad ELSE Dir(h, t, vs, [o EXCEPT !.ind = TRUE, !.dec = 0]))
    [] Digit(c) -> Dir(h, t, vs, IF o.ind THEN [o EXCEPT !.dec = 10 * o.dec + c - 48] ELSE IF c = 48 /\ o.w = 0 THEN (IF o.left THEN o ELSE [o EXCEPT !.zero = TRUE]) ELSE [o EXCEPT !.w = 10 * o.w + c - 48])
    [] c \in {42, 100, 111, 120, 88, 102, 115, 99} -> (IF vs = <<>> THEN Bad ELSE IF c # 115 /\ c # 99 /\ ~IsNum(v) THEN Bad
       ELSE IF c = 42 THEN Dir(h, t, Tail(vs), IF o.ind THEN [o EXCEPT !.dec = ToI(v)] ELSE [o EXCEPT !.w = ToI(v)])
       ELSE IF c = 102 THEN Join2(Signs(Fixed(Num(v), o.dec), Num(v) < 0, o, o.zero), Fmt(h, t, Tail(vs)))
       ELSE IF c = 115 THEN Join2(Pads(Str(h, v), o), Fmt(h, t, Tail(vs)))
       ELSE IF c = 99 THEN (IF IsNum(v) /\ ToI(v) > 0 THEN Join2(Pads(<<ToI(v)>>, o), Fmt(h, t, Tail(vs))) ELSE IF Ty(v) = "s" /\ Len(v.s) = 1 THEN Join2(Pads(v.s, o), Fmt(h, t, Tail(vs))) ELSE Bad)
       ELSE Join2(Signs(NumBase(Dec(Abs(ToI(v))), IF c = 100 THEN 10 ELSE IF c = 111 THEN 8 ELSE 16, c = 88), ToI(v) < 0, o, o.zero), Fmt(h, t, Tail(vs))))
    [] OTHER -> Bad
(* --- arrays; positions count from 0 *)
New(h, c, r) == [h |-> Append(h, [t |-> "a", c |-> c]), r |-> <<[a |-> Len(h) + 1]>> \o r]
Ret(h, r) == [h |-> h, r |-> r]
Is(c, v, h) == {i \in 1..Len(c) : SEq(h, c[i], v)}
Del(c, i) == SubSeq(c, 1, i) \o SubSeq(c, i + 2, Len(c))
Ins(c, i, v) == SubSeq(c, 1, i) \o <<v>> \o SubSeq(c, i + 1, Len(c))
(* copies: every container met is copied anew, once per place *)
RECURSIVE Dup(_, _), DupAll(_, _)
DupAll(h, vs) == IF vs = <<>> THEN [h |-> h, r |-> <<>>] ELSE LET a == Dup(h, Head(vs)) b == DupAll(a.h, Tail(vs)) IN [h |-> b.h, r |-> a.r \o b.r]
Dup(h, v) == IF ~IsC(v) THEN Ret(h, <<v>>)
  ELSE IF Ty(v) = "a" THEN (LET d == DupAll(h, El(h, v)) IN New(d.h, d.r, <<>>))
  ELSE LET c == El(h, v) d == DupAll(h, [i \in 1..Len(c) |-> c[i][2]]) IN [h |-> Append(d.h, [t |-> "d", c |-> [i \in 1..Len(c) |-> <<c[i][1], d.r[i]>>]]), r |-> <<[d |-> Len(d.h) + 1]>>]
Shallow(h, v) == IF ~IsC(v) THEN Ret(h, <<v>>) ELSE [h |-> Append(h, h[Id(v)]), r |-> <<IF Ty(v) = "a" THEN [a |-> Len(h) + 1] ELSE [d |-> Len(h) + 1]>>]
DupV(h, v, deep) == IF deep THEN Dup(h, v) ELSE Shallow(h, v)
Clamp(i, n) == LET j == IF i < -n THEN -n ELSE IF i > n - 1 THEN n - 1 ELSE i IN IF j < 0 THEN n + j ELSE j
RECURSIVE Steps(_, _, _)
Steps(i, e, s) == IF (s > 0 /\ i > e) \/ (s < 0 /\ i < e) THEN <<>> ELSE <<i>> \o Steps(i + s, e, s)
SliceIdx(n, b, e, s) == IF s = 0 \/ n = 0 THEN <<>> ELSE IF (s > 0 /\ (b >= n \/ e < -n)) \/ (s < 0 /\ (b < -n \/ e >= n)) THEN <<>> ELSE Steps(Clamp(b, n), Clamp(e, n), s)
(* values of one orderable family *)
RECURSIVE Plain(_, _)
Plain(h, v) == Ty(v) = "a" => \A i \in 1..Len(El(h, v)) : Ty(El(h, v)[i]) \in {"n", "b", "i", "r", "s", "a", "pi", "ps"} /\ Plain(h, El(h, v)[i])
Family(h, c) == (\A i \in 1..Len(c) : IsNum(c[i])) \/ (\A i \in 1..Len(c) : Ty(c[i]) = "s") \/ (\A i \in 1..Len(c) : Ty(c[i]) = "b") \/ (\A i \in 1..Len(c) : Ty(c[i]) = "a" /\ Plain(h, c[i])) \/ (\A i \in 1..Len(c) : Ty(c[i]) = "pi")
Lt(h, a, b) == Less(h, a, b) = "T"
SortedV(h, c) == \A i \in 1..(Len(c) - 1) : ~Lt(h, c[i + 1], c[i])
RECURSIVE Best(_, _, _, _)
Best(h, c, m, less) == IF c = <<>> THEN m ELSE LET e == IF less THEN Less(h, c[1], m) ELSE Greater(h, c[1], m) IN IF e = "X" THEN N ELSE Best(h, Tail(c), IF e = "T" THEN c[1] ELSE m, less)
AM(h, m, v, p) == LET c == El(h, v) n == Len(c) k == Id(v) W(nc, r) == [h |-> [h EXCEPT ![k].c = nc], r |-> r] OK == <<N>> Oob(i) == i < 0 \/ i >= n IN
  CASE m = "size" -> Ret(h, <<I(n), B(n = 0)>>) [] m = "clear" -> W(<<>>, OK) [] m \in {"push", "append1"} -> W(Append(c, p[1]), OK) [] m = "append" -> W(c \o El(h, p[1]), OK)
    [] m = "insert" -> W(IF p[1].i < 0 \/ p[1].i > n THEN c ELSE Ins(c, p[1].i, p[2]), OK) [] m = "remove" -> W(IF Oob(p[1].i) THEN c ELSE Del(c, p[1].i), OK)
    [] m = "resize" -> W(IF p[1].i <= n THEN SubSeq(c, 1, p[1].i) ELSE c \o Rep(<<N>>, p[1].i - n), OK) [] m = "fill" -> W([i \in 1..n |-> p[1]], OK)
    [] m = "front" -> Ret(h, <<IF n = 0 THEN N ELSE c[1]>>) [] m = "back" -> Ret(h, <<IF n = 0 THEN N ELSE c[n]>>)
    [] m = "get" -> Ret(h, <<IF Oob(p[1].i) THEN None ELSE c[p[1].i + 1]>>) [] m = "set" -> (IF Oob(p[1].i) THEN Ret(h, <<None>>) ELSE W([c EXCEPT ![p[1].i + 1] = p[2]], OK))
    [] m = "find" -> Ret(h, <<I(Least({i - 1 : i \in {j \in Is(c, p[1], h) : p[2].i >= 0 /\ j > p[2].i}}))>>)
    [] m = "rfind" -> Ret(h, <<I(LET f == IF p[2].i < 0 THEN n + p[2].i ELSE p[2].i g == IF Oob(f) THEN n - 1 ELSE f IN Most({i - 1 : i \in {j \in Is(c, p[1], h) : j <= g + 1}}))>>)
    [] m = "has" -> Ret(h, <<I(Cardinality(Is(c, p[1], h))), B(Is(c, p[1], h) # {}), I(Most({i - 1 : i \in Is(c, p[1], h)}))>>)
    [] m = "erase" -> W(IF Is(c, p[1], h) = {} THEN c ELSE Del(c, Least(Is(c, p[1], h)) - 1), OK) [] m = "push_front" -> W(<<p[1]>> \o c, OK)
    [] m = "pop_back" -> (IF n = 0 THEN Ret(h, OK) ELSE W(SubSeq(c, 1, n - 1), <<c[n]>>)) [] m = "pop_front" -> (IF n = 0 THEN Ret(h, OK) ELSE W(Tail(c), <<c[1]>>))
    [] m = "pop_at" -> (LET i == IF p[1].i < 0 THEN n + p[1].i ELSE p[1].i IN IF n = 0 \/ Oob(i) THEN Ret(h, OK) ELSE W(Del(c, i), <<c[i + 1]>>))
    [] m = "dup" -> DupV(h, v, p[1].b)
    [] m = "slice" -> (LET ix == SliceIdx(n, p[1].i, p[2].i, p[3].i) xs == [j \in 1..Len(ix) |-> c[ix[j] + 1]] d == IF p[4].b THEN DupAll(h, xs) ELSE Ret(h, xs) IN New(d.h, d.r, <<>>))
    [] m = "min" -> Ret(h, <<IF n = 0 THEN N ELSE Best(h, Tail(c), c[1], TRUE), IF n = 0 THEN N ELSE Best(h, Tail(c), c[1], FALSE)>>)
    [] m = "invert" -> W(Rev(c), OK) [] m \in {"sort", "shuffle"} -> W(c, OK)
    [] m = "bsearch" -> Ret(h, <<I(IF p[2].b THEN Cardinality({i \in 1..n : Lt(h, c[i], p[1])}) ELSE Cardinality({i \in 1..n : ~Lt(h, p[1], c[i])}))>>)
    [] m = "cmp" -> Ret(h, <<B(v = p[1]), B(LexV(h, c, El(h, p[1]))), B(LexV(h, El(h, p[1]), c)), B(~LexV(h, El(h, p[1]), c)), B(~LexV(h, c, El(h, p[1])))>>)
(* --- dictionaries: entries in the order they were added *)
KeyAt(c, k) == Least({i \in 1..Len(c) : c[i][1] = k})
PutD(c, k, w) == LET i == KeyAt(c, k) IN IF i < 0 THEN Append(c, <<k, w>>) ELSE [c EXCEPT ![i][2] = w]
RECURSIVE MergeD(_, _, _)
MergeD(c, o, over) == IF o = <<>> THEN c ELSE MergeD(IF over \/ KeyAt(c, o[1][1]) < 0 THEN PutD(c, o[1][1], o[1][2]) ELSE c, Tail(o), over)
DM(h, m, v, p) == LET c == El(h, v) n == Len(c) k == Id(v) i == KeyAt(c, p[1]) W(nc, r) == [h |-> [h EXCEPT ![k].c = nc], r |-> r] OK == <<N>> IN
  CASE m = "size" -> Ret(h, <<I(n), B(n = 0)>>) [] m = "clear" -> W(<<>>, OK) [] m = "set" -> W(PutD(c, p[1], p[2]), OK)
    [] m = "get" -> Ret(h, <<IF i < 0 THEN p[2] ELSE c[i][2], IF i < 0 THEN N ELSE c[i][2], B(i >= 0), B(i >= 0)>>)
    [] m = "at" -> (IF i < 0 THEN W(Append(c, <<p[1], N>>), OK) ELSE Ret(h, <<c[i][2]>>)) [] m = "add" -> (IF i < 0 THEN W(Append(c, <<p[1], p[2]>>), <<p[2]>>) ELSE Ret(h, <<c[i][2]>>))
    [] m = "has_all" -> Ret(h, <<B(\A j \in 1..Len(El(h, p[1])) : KeyAt(c, El(h, p[1])[j]) >= 0)>>)
    [] m = "erase" -> (IF i < 0 THEN Ret(h, <<B(FALSE)>>) ELSE W(Del(c, i - 1), <<B(TRUE)>>))
    [] m = "merge" -> W(MergeD(c, El(h, p[1]), p[2].b), OK)
    [] m = "find_key" -> Ret(h, <<LET j == Least({x \in 1..n : SEq(h, c[x][2], p[1])}) IN IF j < 0 THEN N ELSE c[j][1]>>)
    [] m = "idx" -> Ret(h, IF p[1].i < 0 \/ p[1].i >= n THEN <<N, N>> ELSE <<c[p[1].i + 1][1], c[p[1].i + 1][2]>>)
    [] m = "keys" -> New(h, [j \in 1..n |-> c[j][1]], <<>>) [] m = "values" -> New(h, [j \in 1..n |-> c[j][2]], <<>>)
    [] m = "next" -> Ret(h, <<IF i < 0 \/ i = n THEN None ELSE c[i + 1][1], IF n = 0 THEN None ELSE c[1][1]>>) [] m = "dup" -> DupV(h, v, p[1].b)
    [] m = "cmp" -> Ret(h, <<B(v = p[1]), B(v # p[1])>>)
(* --- any value in a slot *)
GetV(h, v, k) == LET t == Ty(v) n == IF t \in {"s", "pb", "pi", "pr", "ps"} THEN Len(Seq0(v)) ELSE IF t = "a" THEN Len(El(h, v)) ELSE 0
    i == IF IsNum(k) THEN (IF ToI(k) < 0 THEN ToI(k) + n ELSE ToI(k)) ELSE -1 IN
  IF t = "d" THEN (LET j == KeyAt(El(h, v), k) IN IF j < 0 THEN None ELSE El(h, v)[j][2])
  ELSE IF i < 0 \/ i >= n THEN None
  ELSE CASE t = "s" -> S(<<v.s[i + 1]>>) [] t = "a" -> El(h, v)[i + 1] [] t \in {"pb", "pi"} -> I(Seq0(v)[i + 1]) [] t = "pr" -> R64(v.pr[i + 1]) [] OTHER -> S(v.ps[i + 1])
(* new value and new heap, or None when refused *)
SetV(h, v, k, w) == LET t == Ty(v) n == IF t \in {"s", "pb", "pi", "pr", "ps"} THEN Len(Seq0(v)) ELSE IF t = "a" THEN Len(El(h, v)) ELSE 0
    i == IF IsNum(k) THEN (IF ToI(k) < 0 THEN ToI(k) + n ELSE ToI(k)) ELSE -1 no == [h |-> h, v |-> None] IN
  IF t = "d" THEN [h |-> [h EXCEPT ![v.d].c = PutD(El(h, v), k, w)], v |-> v]
  ELSE IF i < 0 \/ i >= n THEN no
  ELSE CASE t = "s" -> (IF IsNum(w) THEN [h |-> h, v |-> S(SubSeq(v.s, 1, i) \o <<ToI(w)>> \o SubSeq(v.s, i + 2, n))] ELSE IF Ty(w) = "s" THEN [h |-> h, v |-> S(SubSeq(v.s, 1, i) \o w.s \o SubSeq(v.s, i + 2, n))] ELSE no)
    [] t = "a" -> [h |-> [h EXCEPT ![v.a].c = [El(h, v) EXCEPT ![i + 1] = w]], v |-> v]
    [] t \in {"pb", "pi", "pr"} -> (IF IsNum(w) THEN [h |-> h, v |-> [v EXCEPT ![t] = [v[t] EXCEPT ![i + 1] = IF t = "pr" THEN Num(w) ELSE IF t = "pb" THEN ToI(w) % 256 ELSE ToI(w)]]] ELSE no)
    [] OTHER -> (IF Ty(w) = "s" THEN [h |-> h, v |-> [v EXCEPT !.ps = [v.ps EXCEPT ![i + 1] = w.s]]] ELSE no)
RECURSIVE Rng(_, _, _)
Rng(f, t, s) == IF (s > 0 /\ f >= t) \/ (s < 0 /\ f <= t) \/ s = 0 THEN <<>> ELSE <<I(f)>> \o Rng(f + s, t, s)
Iter(h, v) == LET t == Ty(v) IN
  CASE t = "i" -> Rng(0, v.i, 1) [] t = "r" -> Rng(0, -((-v.r) \div 64), 1) [] t = "s" -> MapC(LAMBDA c : S(<<c>>), v.s) [] t = "a" -> El(h, v) [] t = "d" -> MapC(LAMBDA e : e[1], El(h, v))
    [] t \in {"pb", "pi"} -> IntSeq(Seq0(v)) [] t = "pr" -> MapC(R64, v.pr) [] t = "ps" -> TxtSeq(v.ps) [] t = "v2" -> Rng(v.v2[1], v.v2[2], 1)
    [] t = "v3" -> (IF (v.v3[1] < v.v3[2] /\ v.v3[3] > 0) \/ (v.v3[1] > v.v3[2] /\ v.v3[3] < 0) THEN Rng(v.v3[1], v.v3[2], v.v3[3]) ELSE <<>>) [] OTHER -> <<None>>
(* between two values; c in 64ths *)
Sub2(a, b) == IF Ty(a) # Ty(b) THEN N ELSE CASE Ty(a) = "i" -> I(a.i - b.i) [] Ty(a) = "r" -> R64(a.r - b.r) [] Ty(a) \in {"ri", "v2", "v3"} -> [a EXCEPT ![Ty(a)] = [j \in 1..Len(Seq0(a)) |-> Seq0(a)[j] - Seq0(b)[j]]] [] OTHER -> N
Interp(a, b, c) == IF Ty(a) # Ty(b) THEN (IF IsNum(a) /\ IsNum(b) THEN R64(Num(a) + ((Num(b) - Num(a)) * c) \div 64) ELSE a)
  ELSE CASE Ty(a) = "i" -> I(Trunc(64 * a.i + (b.i - a.i) * c, 64)) [] Ty(a) = "r" -> R64(a.r + ((b.r - a.r) * c) \div 64)
    [] Ty(a) = "pi" -> (IF Len(a.pi) = Len(b.pi) THEN [pi |-> [j \in 1..Len(a.pi) |-> Trunc(64 * a.pi[j] + (b.pi[j] - a.pi[j]) * c, 64)]] ELSE a)
    [] Ty(a) = "pr" -> (IF Len(a.pr) = Len(b.pr) THEN [pr |-> [j \in 1..Len(a.pr) |-> a.pr[j] + ((b.pr[j] - a.pr[j]) * c) \div 64]] ELSE a) [] OTHER -> a
Blend(a, b, c) == IF Ty(a) # Ty(b) THEN (IF IsNum(a) /\ IsNum(b) THEN R64(Num(a) + (Num(b) * c) \div 64) ELSE a)
  ELSE CASE Ty(a) = "i" -> I(Trunc(64 * a.i + b.i * c + 32, 64)) [] Ty(a) = "r" -> R64(a.r + (b.r * c) \div 64) [] Ty(a) = "n" -> N [] OTHER -> IF c < 32 THEN a ELSE b
Vals(h, v) == LET t == Ty(v) IN CASE t = "a" -> El(h, v) [] t \in {"pb", "pi"} -> IntSeq(Seq0(v)) [] t = "pr" -> MapC(R64, v.pr) [] t = "ps" -> TxtSeq(v.ps) [] OTHER -> <<>>
Conv(h, v, t) == LET xs == Vals(h, v) IN
  IF Ty(v) = t THEN Ret(h, <<v>>)
  ELSE CASE t = "a" -> New(h, xs, <<>>) [] t = "pi" -> Ret(h, <<[pi |-> MapC(ToI, xs)]>>) [] t = "pb" -> Ret(h, <<[pb |-> [j \in 1..Len(xs) |-> ToI(xs[j]) % 256]]>>)
    [] t = "pr" -> Ret(h, <<[pr |-> MapC(ToR, xs)]>>) [] t = "ps" -> Ret(h, <<[ps |-> [j \in 1..Len(xs) |-> Str(h, xs[j])]]>>)
RECURSIVE EvAll(_, _, _, _)
EvAll(h, i, a, b) == IF i > Len(Ops) THEN [h |-> h, r |-> <<>>] ELSE LET e == Ev(h, Ops[i], a, b) d == "new" \in DOMAIN e g == IF d THEN New(h, e.new, <<>>) ELSE Ret(h, <<e>>) rest == EvAll(g.h, i + 1, a, b) IN [h |-> rest.h, r |-> g.r \o rest.r]
GetN(h, v, k) == IF Ty(v) # "d" THEN None ELSE LET c == El(h, v) i == KeyAt(c, [nm |-> k]) j == KeyAt(c, S(k)) IN IF i >= 0 THEN c[i][2] ELSE IF j >= 0 THEN c[j][2] ELSE None
FmtArgs(h, v) == IF Ty(v) = "a" THEN El(h, v) ELSE <<v>>
VM(h, m, v, p) == 
  CASE m = "ops" -> EvAll(h, 1, v, p[1]) [] m = "get" -> Ret(h, <<GetV(h, v, p[1])>>) [] m = "getn" -> Ret(h, <<GetN(h, v, p[1].s)>>) [] m = "iter" -> Ret(h, Iter(h, v)) [] m = "dup" -> DupV(h, v, p[1].b)
    [] m = "str" -> Ret(h, IF TwinKeys(h, v) THEN <<None>> ELSE <<S(Str(h, v)), [nm |-> Str(h, v)]>>) [] m = "bool" -> Ret(h, <<B(Bool(h, v)), B(~Bool(h, v))>>) [] m = "num" -> Ret(h, <<I(ToI(v)), I(ToI(v)), R64(ToR(v))>>)
    [] m = "strict" -> Ret(h, <<B(SEq(h, v, p[1])), B(~SEq(h, v, p[1])), B(VLt(h, v, p[1])), B(HashEq(h, v, p[1]))>>)
    [] m = "deep" -> Ret(h, <<B(DeepO(h, v, p[1]))>>) [] m = "sub" -> Ret(h, <<Sub2(v, p[1])>>) [] m = "interp" -> Ret(h, <<Interp(v, p[1], p[2].r)>>) [] m = "blend" -> Ret(h, <<Blend(v, p[1], p[2].r)>>)
    [] m = "conv" -> Conv(h, v, p[1].t) [] m = "fmt" -> (LET f == Fmt(h, v.s, FmtArgs(h, p[1])) IN Ret(h, IF f = Bad THEN <<None>> ELSE <<S(f)>>))
(* --- steps: op, a = <<method, destination, receiver, arguments...>> *)
Arg(st, a) == IF "x" \in DOMAIN a THEN st.x[a.x] ELSE a
Grow == {"push", "append1", "insert", "set", "fill", "push_front", "add"}
KeyM == {"set", "get", "at", "add", "erase", "next"}
Refuse(st, e, v, p) == LET m == e.a[1] IN      \* a container would hold itself, or be used as a key: the program stops short of it
  \/ m \in Grow /\ IsC(v) /\ \E i \in 1..Len(p) : Reaches(st.h, p[i], Id(v))
  \/ m = "append" /\ \E i \in 1..Len(El(st.h, p[1])) : Reaches(st.h, El(st.h, p[1])[i], Id(v))
  \/ m = "merge" /\ \E i \in 1..Len(El(st.h, p[1])) : Reaches(st.h, El(st.h, p[1])[i][2], Id(v))
  \/ Ty(v) = "d" /\ m \in KeyM /\ IsC(p[1])
  \/ m = "has_all" /\ \E i \in 1..Len(El(st.h, p[1])) : IsC(El(st.h, p[1])[i])
Fits(st, e, v, p) == CASE e.op = "A" -> Ty(v) = "a" /\ (e.a[1] \in {"append", "cmp"} => Ty(p[1]) = "a") /\ (e.a[1] = "sort" => Family(st.h, El(st.h, v))) /\ (e.a[1] = "bsearch" => Family(st.h, Append(El(st.h, v), p[1]))) /\ (e.a[1] \in {"sort", "bsearch", "shuffle"} => Len(El(st.h, v)) <= 5 \/ ~\E i \in 1..Len(El(st.h, v)) : IsC(El(st.h, v)[i]))
  [] e.op = "D" -> Ty(v) = "d" /\ (e.a[1] \in {"merge", "cmp"} => Ty(p[1]) = "d") /\ (e.a[1] = "has_all" => Ty(p[1]) = "a") [] OTHER -> e.a[1] = "fmt" => Ty(v) = "s"
Finish(st, e, o) == LET nx == IF e.a[2] = "" THEN st.x ELSE [st.x EXCEPT ![e.a[2]] = IF o.r[1] = None THEN N ELSE o.r[1]] IN CanonH(o.h, nx, o.r)
VDo(st, e) ==
  CASE e.op = "lit" -> CanonH(st.h, [st.x EXCEPT ![e.a[1]] = e.a[2]], <<>>)
    [] e.op = "copy" -> CanonH(st.h, [st.x EXCEPT ![e.a[1]] = st.x[e.a[2]]], <<>>)
    [] e.op = "newa" -> LET n == Len(st.h) + 1 IN CanonH(Append(st.h, [t |-> "a", c |-> [i \in 1..(Len(e.a) - 1) |-> Arg(st, e.a[i + 1])]]), [st.x EXCEPT ![e.a[1]] = [a |-> n]], <<>>)
    [] e.op = "newd" -> LET n == Len(st.h) + 1 IN CanonH(Append(st.h, [t |-> "d", c |-> <<>>]), [st.x EXCEPT ![e.a[1]] = [d |-> n]], <<>>)
    [] OTHER -> LET v == st.x[e.a[3]] p == [i \in 1..(Len(e.a) - 3) |-> Arg(st, e.a[i + 3])] IN
       IF ~Fits(st, e, v, p) \/ Refuse(st, e, v, p) THEN CanonH(st.h, st.x, <<[q |-> 1]>>)
       ELSE IF e.op = "A" THEN Finish(st, e, AM(st.h, e.a[1], v, p)) ELSE IF e.op = "D" THEN Finish(st, e, DM(st.h, e.a[1], v, p))
       ELSE IF e.a[1] = "set" THEN (LET g == SetV(st.h, v, p[1], p[2]) IN IF g.v = None THEN CanonH(st.h, st.x, <<B(FALSE)>>) ELSE CanonH(g.h, [st.x EXCEPT ![e.a[3]] = g.v], <<B(TRUE)>>))
       ELSE Finish(st, e, VM(st.h, e.a[1], v, p))
=============================================================================
