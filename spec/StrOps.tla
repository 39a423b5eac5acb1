------------------------------ MODULE StrOps ------------------------------
(* Strings as sequences of code points: the definition of every operation. *)
EXTENDS Rl, FiniteSets
Cat(x, y) == x \o y
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
MapC(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
SelC(P(_), s) == LET RECURSIVE G(_) G(t) == IF t = <<>> THEN <<>> ELSE (IF P(Head(t)) THEN <<Head(t)>> ELSE <<>>) \o G(Tail(t)) IN G(s)
Digit(c) == c >= 48 /\ c <= 57
UpA(c) == c >= 65 /\ c <= 90
LowA(c) == c >= 97 /\ c <= 122
Ident(c) == Digit(c) \/ UpA(c) \/ LowA(c) \/ c = 95
(* the letters the specification knows: Latin-1, Greek and Cyrillic *)
Up(c) == IF LowA(c) \/ (c >= 224 /\ c <= 254 /\ c # 247) \/ (c >= 945 /\ c <= 969 /\ c # 962) \/ (c >= 1072 /\ c <= 1103) THEN c - 32 ELSE c
Low(c) == IF UpA(c) \/ (c >= 192 /\ c <= 222 /\ c # 215) \/ (c >= 913 /\ c <= 937 /\ c # 930) \/ (c >= 1040 /\ c <= 1071) THEN c + 32 ELSE c
Upper(s) == MapC(Up, s)
Lower(s) == MapC(Low, s)
Sub(s, from, n) == SubSeq(s, from + 1, Min2(from + n, Len(s)))     \* 0-based, clipped
(* substr: -1 asks for the rest *)
Substr(s, from, n) == IF from < 0 \/ from >= Len(s) THEN <<>> ELSE IF n = -1 THEN Sub(s, from, Len(s)) ELSE IF n <= 0 THEN <<>> ELSE IF n > Len(s) THEN Sub(s, from, Len(s)) ELSE Sub(s, from, n)
SubIdx(s, a, b) == IF a < 0 \/ a >= Len(s) \/ b < a THEN <<>> ELSE SubSeq(s, a + 1, Min2(b, Len(s)))
At(s, k, i) == i >= 0 /\ i + Len(k) <= Len(s) /\ \A j \in 1..Len(k) : s[i + j] = k[j]
Least(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Most(S) == IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j
Hits(s, k) == IF k = <<>> THEN {} ELSE {i \in 0..(Len(s) - Len(k)) : At(s, k, i)}
Find(s, k, from) == IF from < 0 THEN -1 ELSE Least({i \in Hits(s, k) : i >= from})
RFind(s, k, from) == Most({i \in Hits(s, k) : from < 0 \/ i <= from})
FindMk(s, ks, from) == LET S == UNION {{i \in Hits(s, ks[k]) : i >= from} : k \in 1..Len(ks)} p == Least(S) IN
  IF p = -1 \/ from < 0 THEN <<-1>> ELSE <<p, Least({k \in 1..Len(ks) : At(s, ks[k], p)}) - 1>>
FirstDiff(s, t) == LET D == {i \in 0..(Min2(Len(s), Len(t)) - 1) : s[i + 1] # t[i + 1]} IN IF D = {} THEN Min2(Len(s), Len(t)) ELSE Least(D)
Begins(s, k) == At(s, k, 0)
Ends(s, k) == At(s, k, Len(s) - Len(k))
RECURSIVE Wild(_, _)
Wild(p, s) == IF p = <<>> THEN s = <<>>
  ELSE IF Head(p) = 42 THEN \E i \in 0..Len(s) : Wild(Tail(p), SubSeq(s, i + 1, Len(s)))
  ELSE s # <<>> /\ (IF Head(p) = 63 THEN Head(s) # 46 ELSE Head(p) = Head(s)) /\ Wild(Tail(p), Tail(s))
Match(s, p) == p # <<>> /\ s # <<>> /\ Wild(p, s)
RECURSIVE Subseq(_, _)
Subseq(s, t) == s = <<>> \/ (t # <<>> /\ (IF Head(s) = Head(t) THEN Subseq(Tail(s), Tail(t)) ELSE Subseq(s, Tail(t))))
(* order *)
Cmp(s, t) == LET d == FirstDiff(s, t) + 1 IN
  IF d > Len(s) THEN (IF d > Len(t) THEN 0 ELSE -1) ELSE IF d > Len(t) THEN 1 ELSE IF s[d] < t[d] THEN -1 ELSE 1
RECURSIVE Digits(_), StripL(_, _)
Digits(s) == IF s = <<>> \/ ~Digit(Head(s)) THEN 0 ELSE 1 + Digits(Tail(s))
StripL(s, c) == IF s = <<>> \/ Head(s) # c THEN s ELSE StripL(Tail(s), c)
NumCmp(x, y) == LET a == StripL(x, 48) b == StripL(y, 48) IN IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE Cmp(a, b)
RECURSIVE Natural(_, _)     \* case-folded, not starting with a full stop
Natural(s, t) ==
  IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1) ELSE IF t = <<>> THEN 1
  ELSE IF Digit(Head(s)) THEN
    (IF ~Digit(Head(t)) THEN -1 ELSE LET n == Digits(s) m == Digits(t) c == NumCmp(SubSeq(s, 1, n), SubSeq(t, 1, m)) IN IF c # 0 THEN c ELSE Natural(SubSeq(s, n + 1, Len(s)), SubSeq(t, m + 1, Len(t))))
  ELSE IF Digit(Head(t)) THEN 1
  ELSE IF Head(s) < Head(t) THEN -1 ELSE IF Head(s) > Head(t) THEN 1 ELSE Natural(Tail(s), Tail(t))
(* replacing and splitting: the occurrences met from the left, without overlaps *)
RECURSIVE Pieces(_, _, _)
Pieces(s, k, f) == LET p == Find(f, k, 0) IN      \* f is s, possibly with case folded
  IF p < 0 THEN <<s>> ELSE <<SubSeq(s, 1, p)>> \o Pieces(SubSeq(s, p + Len(k) + 1, Len(s)), k, SubSeq(f, p + Len(k) + 1, Len(f)))
RECURSIVE JoinS(_, _)
JoinS(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o sep \o JoinS(Tail(ss), sep)
Split(s, k) == Pieces(s, k, s)
Replace(s, k, w) == JoinS(Split(s, k), w)
ReplaceN(s, k, w) == JoinS(Pieces(s, Lower(k), Lower(s)), w)
ReplaceFirst(s, k, w) == LET p == Find(s, k, 0) IN IF p < 0 THEN s ELSE SubSeq(s, 1, p) \o w \o SubSeq(s, p + Len(k) + 1, Len(s))
NonEmpty(ss) == LET P(x) == x # <<>> IN SelC(P, ss)
(* a limit of m splits leaves the rest of the string in one last piece *)
SplitMax(s, k, empty, m) == LET all == Split(s, k) IN
  IF m <= 0 THEN (IF empty THEN all ELSE NonEmpty(all))
  ELSE LET Rest(i) == JoinS(SubSeq(all, i, Len(all)), k)
           idx == IF empty THEN [i \in 1..Len(all) |-> i] ELSE LET P(i) == all[i] # <<>> IN SelC(P, [i \in 1..Len(all) |-> i])
       IN [i \in 1..Min2(Len(idx), m + 1) |-> IF i <= m THEN all[idx[i]] ELSE Rest(idx[i])]
RECURSIVE RPieces(_, _, _, _)
RPieces(s, k, empty, m) ==       \* splits met from the right; m < 0: no limit
  LET p == RFind(s, k, -1) IN
  IF p < 0 \/ m = 0 THEN (IF empty \/ s # <<>> THEN <<s>> ELSE <<>>)
  ELSE LET last == SubSeq(s, p + Len(k) + 1, Len(s)) IN
    IF empty \/ last # <<>> THEN Append(RPieces(SubSeq(s, 1, p), k, empty, m - 1), last) ELSE RPieces(SubSeq(s, 1, p), k, empty, m)
RSplit(s, k, empty, m) == RPieces(s, k, empty, IF m <= 0 THEN -1 ELSE m)
RECURSIVE MkPieces(_, _)
MkPieces(s, ks) == LET f == FindMk(s, ks, 0) IN IF f[1] < 0 THEN <<s>> ELSE <<SubSeq(s, 1, f[1])>> \o MkPieces(SubSeq(s, f[1] + Len(ks[f[2] + 1]) + 1, Len(s)), ks)
Blank(c) == c < 33
RECURSIVE Words(_, _)
Words(s, w) == IF s = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>) ELSE IF Blank(Head(s)) THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(Tail(s), <<>>) ELSE Words(Tail(s), Append(w, Head(s)))
Count(s, k, from, to) == IF k = <<>> \/ Len(s) < Len(k) \/ from < 0 \/ to < 0 \/ (to # 0 /\ from >= to) THEN 0
  ELSE LET t == Substr(s, from, (IF to = 0 THEN Len(s) ELSE to) - from) IN Len(Split(t, k)) - 1
(* trimming *)
RECURSIVE Rev(_), Rep(_, _)
LStrip(s, P(_)) == LET RECURSIVE G(_) G(t) == IF t = <<>> \/ ~P(Head(t)) THEN t ELSE G(Tail(t)) IN G(s)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
RStrip(s, P(_)) == Rev(LStrip(Rev(s), P))
Rep(s, n) == IF n <= 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
StripEdges(s, l, r) == LET x == IF l THEN LStrip(s, Blank) ELSE s IN IF r THEN RStrip(x, Blank) ELSE x
LStripC(s, cs) == LET P(c) == Has(cs, c) IN LStrip(s, P)
RStripC(s, cs) == LET P(c) == Has(cs, c) IN RStrip(s, P)
Insert(s, i, t) == IF i < 0 THEN s ELSE LET p == Min2(i, Len(s)) IN SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
Erase(s, p, n) == SubSeq(s, 1, Min2(p, Len(s))) \o SubSeq(s, p + n + 1, Len(s))
(* every line loses what it shares with the indentation of the first line with text; lines without text become empty *)
Dedent(s) == LET ls == Split(s, <<10>>)
                 text(l) == \E i \in 1..Len(l) : l[i] > 32
                 F == Least({i \in 1..Len(ls) : text(ls[i])})
                 ind == LET l == ls[F] p == Least({i \in 1..Len(l) : l[i] > 32}) IN SubSeq(l, 1, p - 1)
                 RECURSIVE Sh(_, _) Sh(x, y) == IF x = <<>> \/ y = <<>> \/ Head(x) # Head(y) THEN 0 ELSE 1 + Sh(Tail(x), Tail(y))
  IN JoinS([i \in 1..Len(ls) |-> IF text(ls[i]) THEN SubSeq(ls[i], Sh(ls[i], ind) + 1, Len(ls[i])) ELSE <<>>], <<10>>)
IsNumeric(s) == LET t == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s IN s # <<>> /\ (\A i \in 1..Len(t) : Digit(t[i]) \/ t[i] = 46) /\ Cardinality({i \in 1..Len(t) : t[i] = 46}) <= 1
Indent(s, p) == LET ls == Split(s, <<10>>) IN JoinS([i \in 1..Len(ls) |-> IF ls[i] = <<>> THEN <<>> ELSE p \o ls[i]], <<10>>)
PadDec(s, n) == LET p == Find(s, <<46>>, 0) w == IF p < 0 THEN s ELSE SubSeq(s, 1, p) f == IF p < 0 THEN <<>> ELSE SubSeq(s, p + 2, Len(s)) IN
  IF n <= 0 THEN w ELSE w \o <<46>> \o (IF Len(f) >= n THEN SubSeq(f, 1, n) ELSE f \o Rep(<<48>>, n - Len(f)))
PadZero(s, n) == LET d == Find(s, <<46>>, 0) e == IF d < 0 THEN Len(s) ELSE d b == Least({i \in 0..(e - 1) : Digit(s[i + 1])}) IN
  IF b < 0 THEN s ELSE SubSeq(s, 1, b) \o Rep(<<48>>, n - (e - b)) \o SubSeq(s, b + 1, Len(s))
Quoted(s) == (Begins(s, <<34>>) /\ Ends(s, <<34>>)) \/ (Begins(s, <<39>>) /\ Ends(s, <<39>>))
Bigrams(s) == [i \in 1..Max2(Len(s) - 1, 0) |-> <<s[i], s[i + 1]>>]
Similar(s, t) == IF s = t THEN 1 ELSE IF Len(s) < 2 \/ Len(t) < 2 THEN 0 ELSE
  LET a == Bigrams(s) b == Bigrams(t) n == Cardinality({i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]}) IN RDiv(2 * n, Len(a) + Len(b))
Slice(s, k, i) == LET p == Split(s, k) IN IF s = <<>> \/ k = <<>> \/ i < 0 \/ i >= Len(p) THEN <<>> ELSE p[i + 1]
(* word boundaries of a camel-case name *)
Camel(s) ==
  LET u(i) == i >= 1 /\ i <= Len(s) /\ UpA(s[i]) l(i) == i >= 1 /\ i <= Len(s) /\ LowA(s[i]) d(i) == i >= 1 /\ i <= Len(s) /\ Digit(s[i])
      cut(i) == i > 1 /\ ((u(i) /\ ~u(i - 1) /\ ~d(i - 1)) \/ (u(i - 1) /\ u(i) /\ l(i + 1) /\ l(i + 2)) \/ (d(i) /\ ~d(i - 1)) \/ (~d(i) /\ d(i - 1) /\ (l(i + 1) \/ d(i + 1))))
  IN Flat([i \in 1..Len(s) |-> IF cut(i) THEN <<95, s[i]>> ELSE <<s[i]>>])
Capital(s) == LET w == NonEmpty(Split(StripEdges(Replace(Lower(Camel(s)), <<95>>, <<32>>), TRUE, TRUE), <<32>>)) IN JoinS([i \in 1..Len(w) |-> <<Up(w[i][1])>> \o Tail(w[i])], <<32>>)
(* encodings *)
U8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE IF c < 2097152 THEN <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE IF c < 67108864 THEN <<248 + (c \div 16777216), 128 + ((c \div 262144) % 64), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<252 + (c \div 1073741824), 128 + ((c \div 16777216) % 64), 128 + ((c \div 262144) % 64), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Flat(MapC(U8, s))
U16(c) == IF c < 65536 THEN <<c>> ELSE IF c > 1114111 THEN <<32>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Utf16(s) == Flat(MapC(U16, s))
RECURSIVE UnUtf8(_)
UnUtf8(b) == IF b = <<>> THEN <<>> ELSE LET n == IF b[1] < 128 THEN 1 ELSE IF b[1] < 224 THEN 2 ELSE IF b[1] < 240 THEN 3 ELSE 4
    RECURSIVE Acc(_, _)
    Acc(i, v) == IF i > n THEN v ELSE Acc(i + 1, v * 64 + (b[i] % 64))
  IN <<Acc(2, IF n = 1 THEN b[1] ELSE b[1] % (CASE n = 2 -> 32 [] n = 3 -> 16 [] OTHER -> 8))>> \o UnUtf8(SubSeq(b, n + 1, Len(b)))
Bytes(s, k) == Flat(MapC(LAMBDA c : [i \in 1..k |-> IF i = 1 THEN c % 256 ELSE IF i = 2 THEN (c \div 256) % 256 ELSE IF i = 3 THEN (c \div 65536) % 256 ELSE 0], s))
Ascii(s, ext) == MapC(LAMBDA c : IF c <= 127 \/ (ext /\ c <= 255) THEN c ELSE 32, s)
(* decoding byte sequences that need not be well formed: what cannot be decoded becomes a blank and is reported *)
Surr(c) == c >= 55296 /\ c <= 57343
Nul(b) == LET z == Least({i \in 0..(Len(b) - 1) : b[i + 1] = 0}) IN IF z < 0 THEN b ELSE SubSeq(b, 1, z)
Lead(c) == IF c < 128 THEN 0 ELSE IF c < 192 THEN -1 ELSE IF c < 224 THEN 1 ELSE IF c < 240 THEN 2 ELSE IF c < 248 THEN 3 ELSE IF c < 252 THEN 4 ELSE IF c < 254 THEN 5 ELSE -1
Short(c, n, v) == n = 0 /\ v < (CASE c = 1 -> 128 [] c = 2 -> 2048 [] c = 3 -> 65536 [] c = 4 -> 2097152 [] OTHER -> 67108864)
RECURSIVE Dec8(_, _, _, _, _, _, _, _)
\* i next byte, n continuation bytes to come, k of how many, v value so far, o output, bad: broken sequence, odd: not a shortest or allowed code point
Dec8(b, cr, i, n, k, v, o, x) ==
  IF i > Len(b) THEN IF n > 0 THEN [o |-> Append(o, 32), bad |-> TRUE, odd |-> x.odd] ELSE [o |-> o, bad |-> x.bad, odd |-> x.odd]
  ELSE LET c == b[i] IN
    IF n = 0 THEN
      IF cr /\ c = 13 THEN Dec8(b, cr, i + 1, 0, 0, 0, o, x)
      ELSE IF Lead(c) = -1 THEN Dec8(b, cr, i + 1, 0, 0, 0, Append(o, 32), [x EXCEPT !.bad = TRUE])
      ELSE IF Lead(c) = 0 THEN Dec8(b, cr, i + 1, 0, 0, 0, Append(o, c), x)
      ELSE Dec8(b, cr, i + 1, Lead(c), Lead(c), c % (CASE Lead(c) = 1 -> 32 [] Lead(c) = 2 -> 16 [] Lead(c) = 3 -> 8 [] Lead(c) = 4 -> 4 [] OTHER -> 2), o, x)
    ELSE IF Lead(c) # -1 \/ c > 191 THEN Dec8(b, cr, i + 1, 0, 0, 0, Append(o, 32), [x EXCEPT !.bad = TRUE])
    ELSE LET w == v * 64 + (c % 64) IN
      IF n > 1 THEN Dec8(b, cr, i + 1, n - 1, k, w, o, x)
      ELSE IF w = 0 THEN Dec8(b, cr, i + 1, 0, 0, 0, Append(o, 32), [x EXCEPT !.bad = TRUE])
      ELSE Dec8(b, cr, i + 1, 0, 0, 0, Append(o, w), [x EXCEPT !.odd = x.odd \/ Surr(w) \/ w > 1114111 \/ Short(k, 0, w)])
Parse8(b0, cr) == LET b == Nul(b0) c == IF Len(b) >= 3 /\ b[1] = 239 /\ b[2] = 187 /\ b[3] = 191 THEN SubSeq(b, 4, Len(b)) ELSE b IN
  Dec8(c, cr, 1, 0, 0, 0, <<>>, [bad |-> FALSE, odd |-> FALSE])
Err8(d) == IF d.bad THEN "data" ELSE IF d.odd THEN "parse" ELSE "ok"
Swap(c) == (c % 256) * 256 + (c \div 256)
High(c) == c >= 55296 /\ c <= 56319
LowS(c) == c >= 56320 /\ c <= 57343
RECURSIVE Dec16(_, _, _, _)
\* surrogates without partner stay and are reported
Dec16(u, i, o, odd) ==
  IF i > Len(u) THEN [o |-> o, odd |-> odd]
  ELSE IF High(u[i]) /\ i < Len(u) /\ LowS(u[i + 1]) THEN Dec16(u, i + 2, Append(o, 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)), odd)
  ELSE Dec16(u, i + 1, Append(o, u[i]), odd \/ Surr(u[i]))
Parse16(u0) == LET u == Nul(u0) IN Dec16(IF u = <<>> THEN u ELSE IF u[1] = 65279 THEN Tail(u) ELSE IF u[1] = 65534 THEN MapC(Swap, Tail(u)) ELSE u, 1, <<>>, FALSE)
(* djb2 in 16-bit limbs, lowest first *)
RECURSIVE Djb(_, _), Carry(_, _, _)
Carry(h, i, c) == IF i > Len(h) THEN <<>> ELSE LET v == h[i] * 33 + c IN <<v % 65536>> \o Carry(h, i + 1, v \div 65536)
Djb(h, s) == IF s = <<>> THEN h ELSE Djb(Carry(h, 1, Head(s)), Tail(s))
Hash(s, n) == Djb([i \in 1..n |-> IF i = 1 THEN 5381 ELSE 0], s)
(* numerals: digit sequences stand for integers of any size *)
Norm(ds) == LET x == StripL(ds, 48) IN IF x = <<>> THEN <<48>> ELSE x
Signed(neg, ds) == LET x == Norm(ds) IN IF neg /\ x # <<48>> THEN <<45>> \o x ELSE x
OverD(ds, lim) == NumCmp(ds, lim) > 0
Max32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
Min32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
Max64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
Min64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
ClampD(neg, ds, mx, mn) == IF neg THEN (IF OverD(ds, mn) THEN Signed(TRUE, mn) ELSE Signed(TRUE, ds)) ELSE IF OverD(ds, mx) THEN mx ELSE Signed(FALSE, ds)
(* a digit sequence in base b (values) converted to decimal digits and back *)
RECURSIVE MulAdd(_, _, _), ToDec(_, _, _), DivS(_, _, _, _), ToBase(_, _)
MulAdd(ds, b, c) == IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE Append(MulAdd(<<>>, b, c \div 10), c % 10)) ELSE LET v == ds[Len(ds)] * b + c IN Append(MulAdd(SubSeq(ds, 1, Len(ds) - 1), b, v \div 10), v % 10)
ToDec(vs, b, acc) == IF vs = <<>> THEN acc ELSE ToDec(Tail(vs), b, MulAdd(acc, b, Head(vs)))
DecOf(vs, b) == MapC(LAMBDA v : v + 48, ToDec(vs, b, <<>>))
DivS(ds, b, rem, q) == IF ds = <<>> THEN <<q, rem>> ELSE LET v == rem * 10 + Head(ds) IN DivS(Tail(ds), b, v % b, Append(q, v \div b))
ToBase(ds, b) == IF StripL(ds, 0) = <<>> THEN <<>> ELSE LET x == DivS(ds, b, 0, <<>>) IN Append(ToBase(StripL(x[1], 0), b), x[2])
DigC(v, cap) == IF v < 10 THEN 48 + v ELSE (IF cap THEN 65 ELSE 97) + v - 10
NumBase(dec, b, cap) ==          \* dec: decimal text, maybe with a minus sign
  LET neg == dec # <<>> /\ dec[1] = 45 ds == MapC(LAMBDA c : c - 48, IF neg THEN Tail(dec) ELSE dec) v == ToBase(ds, b) IN
  IF v = <<>> THEN <<48>> ELSE (IF neg THEN <<45>> ELSE <<>>) \o MapC(LAMBDA x : DigC(x, cap), v)
ToInt(s, mx, mn) == LET p == Find(s, <<46>>, 0) t == IF p < 0 THEN s ELSE SubSeq(s, 1, p)
    ds == SelC(Digit, t)
    neg == Begins(t, <<45>>) IN ClampD(neg, ds, mx, mn)
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
OfBase(s, b, pre, mx, mn) ==
  LET neg == Begins(s, <<45>>) t == IF neg THEN Tail(s) ELSE s u == IF pre # 0 THEN Substr(t, 2, -1) ELSE t vs == MapC(HexV, u)
  IN IF s = <<>> \/ (pre # 0 /\ ~(Begins(t, <<48>>) /\ Len(t) >= 2 /\ Low(t[2]) = pre)) \/ (\E i \in 1..Len(vs) : vs[i] < 0 \/ vs[i] >= b) THEN <<48>> ELSE ClampD(neg, DecOf(vs, b), mx, mn)
(* the value of the longest decimal numeral at the start *)
RECURSIVE RevVal(_)
RevVal(ds) == IF ds = <<>> THEN 0 ELSE RAdd(RMul(10, RevVal(SubSeq(ds, 1, Len(ds) - 1))), ds[Len(ds)] - 48)
ExpVal(ds) == IF ds = <<>> THEN 0 ELSE RevVal(ds)
SignedTail(s) == IF s # <<>> /\ (s[1] = 45 \/ s[1] = 43) THEN Tail(s) ELSE s
Neg(s) == Begins(s, <<45>>)
ToDouble(s0) ==
  LET P(c) == c \in {32, 9, 10} s == LStrip(s0, P) neg == Neg(s) t == SignedTail(s) n == Digits(t) ip == SubSeq(t, 1, n)
      rest == SubSeq(t, n + 1, Len(t)) fr == IF Begins(rest, <<46>>) THEN SubSeq(Tail(rest), 1, Digits(Tail(rest))) ELSE <<>>
      after == IF Begins(rest, <<46>>) THEN SubSeq(rest, Len(fr) + 2, Len(rest)) ELSE rest
      et == IF after # <<>> /\ after[1] \in {69, 101} THEN SignedTail(Tail(after)) ELSE <<>>
      ed == SubSeq(et, 1, Digits(et)) en == IF ed # <<>> /\ Neg(Tail(after)) THEN -1 ELSE 1
      m == RevVal(ip \o fr) ex == IF ed = <<>> THEN 0 ELSE en * ExpVal(ed)
      v == IF ip \o fr = <<>> THEN 0 ELSE RMul(m, RPow(10, ex - Len(fr)))
  IN IF neg THEN RNeg(v) ELSE v
(* what a printed number looks like: no leading or trailing zeros *)
Canon(r) == LET t == IF Neg(r) THEN Tail(r) ELSE r n == Digits(t) IN
  n >= 1 /\ (t[1] # 48 \/ n = 1) /\ (n = Len(t) \/ (t[n + 1] = 46 /\ Len(t) > n + 1 /\ Digits(SubSeq(t, n + 2, Len(t))) = Len(t) - n - 1))
Decimals(r) == LET p == Find(r, <<46>>, 0) IN IF p < 0 THEN <<>> ELSE SubSeq(r, p + 2, Len(r))
Close(a, b, e) == RLe(RAbs(RSub(a, b)), e)
(* paths *)
Slash(c) == c = 47 \/ c = 92
Sl == <<47>>
Bs == <<92>>
ToSl(s) == MapC(LAMBDA c : IF c = 92 THEN 47 ELSE c, s)
LastSep(s) == Most({i \in 0..(Len(s) - 1) : Slash(s[i + 1])})
IsAbs(s) == (s # <<>> /\ Slash(s[1])) \/ (Len(s) > 1 /\ (Find(s, <<58, 47>>, 0) >= 0 \/ Find(s, <<58, 92>>, 0) >= 0))
GetFile(s) == SubSeq(s, LastSep(s) + 2, Len(s))
Ext(s) == LET p == RFind(s, <<46>>, -1) IN IF p < 0 \/ p < LastSep(s) THEN <<>> ELSE SubSeq(s, p + 2, Len(s))
Basename(s) == LET p == RFind(s, <<46>>, -1) IN IF p < 0 \/ p < LastSep(s) THEN s ELSE SubSeq(s, 1, p)
Share(s) == LET k == <<s[1]>> a == Find(s, k, 2) b == IF a < 0 THEN -1 ELSE Find(s, k, a + 1) IN IF b < 0 THEN 0 ELSE b + 1      \* //host/share/
RootLen(s) ==       \* the part a parent directory never loses
  LET u == Find(s, <<58, 47, 47>>, 0) d1 == Find(s, <<58, 47>>, 0) d2 == Find(s, <<58, 92>>, 0) IN
  IF u >= 0 THEN u + 3 ELSE IF d1 >= 0 THEN d1 + 2 ELSE IF d2 >= 0 THEN d2 + 2 ELSE IF (Begins(s, <<47, 47>>) \/ Begins(s, <<92, 92>>)) /\ Share(s) > 0 THEN Share(s) ELSE IF Begins(s, Sl) THEN 1 ELSE 0
BaseDir(s) == LET n == RootLen(s) r == SubSeq(s, n + 1, Len(s)) p == LastSep(r) IN SubSeq(s, 1, n) \o (IF p < 0 THEN <<>> ELSE SubSeq(r, 1, p))
RECURSIVE Fold(_, _)
Fold(ds, acc) == IF ds = <<>> THEN acc ELSE IF Head(ds) = <<46>> THEN Fold(Tail(ds), acc) ELSE IF Head(ds) = <<46, 46>> THEN Fold(Tail(ds), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1)) ELSE Fold(Tail(ds), Append(acc, Head(ds)))
Res == <<114, 101, 115, 58, 47, 47>>
User == <<117, 115, 101, 114, 58, 47, 47>>
Local == <<108, 111, 99, 97, 108, 58, 47, 47>>
Simplify(s) == LET n == IF Begins(s, Res) THEN 6 ELSE IF Begins(s, User) THEN 7 ELSE IF Begins(s, Local) THEN 8 ELSE IF Begins(s, <<47, 47>>) \/ Begins(s, <<92, 92>>) THEN 2 ELSE IF s # <<>> /\ Slash(s[1]) THEN 1
      ELSE LET d1 == Find(s, <<58, 47>>, 0) d2 == Find(s, <<58, 92>>, 0) p == IF d1 >= 0 THEN d1 ELSE d2 IN IF p >= 0 /\ p < Find(s, Sl, 0) THEN p + 2 ELSE 0
  IN SubSeq(s, 1, n) \o JoinS(Fold(NonEmpty(Split(ToSl(SubSeq(s, n + 1, Len(s))), Sl)), <<>>), Sl)
PlusFile(s, f) == IF s = <<>> THEN f ELSE IF Ends(s, Sl) \/ Begins(f, Sl) THEN s \o f ELSE s \o Sl \o f
(* exactly one separator between the two (those the left one already ends with stay) *)
AppendPath(s, p) == IF p = <<>> THEN s ELSE IF s = <<>> THEN p ELSE LET q == LStrip(p, Slash) IN IF q = <<>> THEN s ELSE IF Slash(s[Len(s)]) THEN s \o q ELSE s \o Sl \o (IF q = p THEN q ELSE <<p[Len(p) - Len(q)]>> \o q)
CleanEnd(s) == LET t == RStrip(s, Slash) IN IF s = <<>> THEN s ELSE IF t = <<>> THEN <<s[1]>> ELSE t
EnsureEnd(s) == IF s = <<>> \/ Slash(s[Len(s)]) THEN s ELSE s \o Sl
PrevDir(s) == LET t == RStrip(s, Slash) p == LastSep(t) IN IF p <= 0 THEN Sl ELSE SubSeq(t, 1, p)
RECURSIVE Common(_, _)
Common(x, y) == IF x = <<>> \/ y = <<>> \/ Head(x) # Head(y) THEN 0 ELSE 1 + Common(Tail(x), Tail(y))
Trim1(s) == LET t == EnsureEnd(s) IN SubSeq(t, 2, Len(t) - 1)     \* without the first and the last separator
PathRel(s, d) == LET x == Split(Trim1(s), Sl) y == Split(Trim1(d), Sl) n == Common(x, y)
  r == Flat([i \in 1..(Len(x) - n) |-> <<46, 46, 47>>]) \o Flat([i \in 1..(Len(y) - n) |-> y[n + i] \o Sl]) IN IF r = <<>> THEN <<46, 47>> ELSE r
(* between two roots (or drives, or first names) there is no relative path *)
PathTo(s0, d0) == LET s == EnsureEnd(ToSl(s0)) d == EnsureEnd(ToSl(d0))
                      s1 == IF s = <<>> THEN Sl ELSE s  d1 == IF d = <<>> THEN Sl ELSE d
                      cut(x, n) == SubSeq(x, n + 1, Len(x))
                      ns == Find(s1, Sl, 0) nd == Find(d1, Sl, 0) IN
  IF Begins(s1, Res) /\ Begins(d1, Res) THEN PathRel(cut(s1, 5), cut(d1, 5))
  ELSE IF Begins(s1, User) /\ Begins(d1, User) THEN PathRel(cut(s1, 6), cut(d1, 6))
  ELSE IF Begins(s1, Sl) /\ Begins(d1, Sl) THEN PathRel(s1, d1)
  ELSE IF SubSeq(s1, 1, ns) # SubSeq(d1, 1, nd) THEN d0 ELSE PathRel(cut(s1, ns), cut(d1, nd))
(* escapes: one character at a time *)
Esc(F(_), s) == Flat(MapC(F, s))
CEsc(c) == CASE c = 92 -> <<92, 92>> [] c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 11 -> <<92, 118>>
  [] c = 39 -> <<92, 39>> [] c = 63 -> <<92, 63>> [] c = 34 -> <<92, 34>> [] OTHER -> <<c>>
CEscS(s) == Esc(CEsc, s)
CEscM(s) == Esc(LAMBDA c : IF c \in {92, 34} THEN <<92, c>> ELSE <<c>>, s)
JsonEsc(s) == Esc(LAMBDA c : IF c \in {92, 8, 12, 10, 13, 9, 11, 34} THEN CEsc(c) ELSE <<c>>, s)
UnC == [c \in {97, 98, 102, 110, 114, 116, 118, 39, 34, 63, 92} |-> CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c]
RECURSIVE CUn(_)
CUn(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) >= 2 /\ s[1] = 92 /\ s[2] \in DOMAIN UnC THEN <<UnC[s[2]]>> \o CUn(SubSeq(s, 3, Len(s))) ELSE <<Head(s)>> \o CUn(Tail(s))
XEnt(c, q) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>> [] c = 39 /\ q -> <<38, 97, 112, 111, 115, 59>> [] c = 34 /\ q -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>
XmlEsc(s, q) == Esc(LAMBDA c : XEnt(c, q), s)
(* a numeric entity: &#digits; or &#xdigits; *)
NumEnt(s) == LET e == Find(s, <<59>>, 0) hex == Begins(s, <<38, 35, 120>>) b == SubSeq(s, IF hex THEN 4 ELSE 3, e) vs == MapC(HexV, b) IN
  IF ~Begins(s, <<38, 35>>) \/ e < 3 \/ b = <<>> \/ (\E i \in 1..Len(vs) : vs[i] < 0 \/ (~hex /\ vs[i] > 9)) THEN <<>> ELSE <<Len(b) + (IF hex THEN 4 ELSE 3), DecOf(vs, IF hex THEN 16 ELSE 10)>>
RECURSIVE XmlUn(_), Small(_)
Small(ds) == IF ds = <<>> THEN 0 ELSE 10 * Small(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)] - 48
XmlUn(s) == IF s = <<>> THEN <<>> ELSE LET K == {c \in {38, 60, 62, 39, 34} : Begins(s, XEnt(c, TRUE))} n == NumEnt(s) IN
  IF n # <<>> /\ Norm(n[2]) # <<48>> THEN <<Small(n[2])>> \o XmlUn(SubSeq(s, n[1] + 1, Len(s)))
  ELSE IF K = {} THEN <<Head(s)>> \o XmlUn(Tail(s)) ELSE LET c == CHOOSE c \in K : TRUE IN <<c>> \o XmlUn(SubSeq(s, Len(XEnt(c, TRUE)) + 1, Len(s)))
Unres(c) == Ident(c) \/ c \in {46, 45, 126}
Pct(s, cap) == Esc(LAMBDA b : IF Unres(b) THEN <<b>> ELSE <<37, DigC(b \div 16, cap), DigC(b % 16, cap)>>, Utf8(s))
RECURSIVE UnPct(_)
UnPct(b) == IF b = <<>> THEN <<>> ELSE IF b[1] = 37 /\ Len(b) >= 3 /\ HexV(b[2]) >= 0 /\ HexV(b[3]) >= 0 THEN <<HexV(b[2]) * 16 + HexV(b[3])>> \o UnPct(SubSeq(b, 4, Len(b))) ELSE <<b[1]>> \o UnPct(Tail(b))
PctDec(s) == UnUtf8(UnPct(Utf8(s)))
PropEnc(s) == IF \E i \in 1..Len(s) : s[i] \in {61, 34, 59, 91, 93} \/ s[i] < 33 \/ s[i] > 126 THEN <<34>> \o CEscM(s) \o <<34>> ELSE s
(* validity *)
AllD(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
ValidInt(s) == AllD(s) \/ (s # <<>> /\ s[1] \in {43, 45} /\ AllD(Tail(s)))
ValidUInt(s) == AllD(s) \/ (s # <<>> /\ s[1] = 43 /\ AllD(Tail(s)))
AllH(s) == s # <<>> /\ \A i \in 1..Len(s) : HexV(s[i]) >= 0
ValidHex(s, pre) == LET t == IF Len(s) > 1 THEN (IF s[1] \in {43, 45} THEN Tail(s) ELSE s) ELSE s IN IF pre THEN Begins(t, <<48, 120>>) /\ AllH(SubSeq(t, 3, Len(t))) ELSE AllH(t)
ValidFloat(s) == LET t == SignedTail(s) n == Digits(t) r == SubSeq(t, n + 1, Len(t)) f == IF Begins(r, <<46>>) THEN Digits(Tail(r)) ELSE 0
    q == IF Begins(r, <<46>>) THEN SubSeq(r, f + 2, Len(r)) ELSE r IN
  n + f > 0 /\ (q = <<>> \/ (q[1] = 101 /\ AllD(SignedTail(Tail(q)))))
ValidBool(s) == s \in {<<48>>, <<49>>} \/ Lower(s) \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>}
ValidId(s) == s # <<>> /\ ~Digit(s[1]) /\ \A i \in 1..Len(s) : Ident(s[i])
MkId(s) == IF s = <<>> THEN <<95>> ELSE [i \in 1..Len(s) |-> IF Ident(s[i]) /\ ~(i = 1 /\ Digit(s[i])) THEN s[i] ELSE 95]
NodeName(s) == MapC(LAMBDA c : IF c \in {46, 58, 64, 47, 34, 37} THEN 95 ELSE c, s)
ValidFile(s) == s # <<>> /\ s = StripEdges(s, TRUE, TRUE) /\ ~\E i \in 1..Len(s) : s[i] \in {58, 47, 92, 63, 42, 34, 124, 37, 60, 62}
ValidIp4(s) == LET p == Split(s, <<46>>) IN Len(p) = 4 /\ \A i \in 1..4 : AllD(p[i]) /\ NumCmp(p[i], <<50, 53, 53>>) <= 0
RECURSIVE NoSp(_)
NoSp(s) == LET P(c) == ~(c \in {32, 9, 10}) IN SelC(P, s)
WrapOk(s, n, r) == NoSp(r) = NoSp(s) /\ (LET ls == Split(r, <<10>>) IN \A i \in 1..Len(ls) : Len(RStrip(ls[i], Blank)) <= n)
(* URL: scheme, host, port, path *)
Url(s) ==
  LET p1 == Find(s, <<58, 47, 47>>, 0) scheme == IF p1 < 0 THEN <<>> ELSE Lower(SubSeq(s, 1, p1 + 3)) b1 == IF p1 < 0 THEN s ELSE SubSeq(s, p1 + 4, Len(s))
      p2 == Find(b1, Sl, 0) path == IF p2 < 0 THEN <<>> ELSE SubSeq(b1, p2 + 1, Len(b1)) b2 == IF p2 < 0 THEN b1 ELSE SubSeq(b1, 1, p2)
      p3 == Find(b2, <<64>>, 0) b3 == IF p3 < 0 THEN b2 ELSE SubSeq(b2, p3 + 2, Len(b2))
      six == Begins(b3, <<91>>) p4 == RFind(b3, <<93>>, -1) p5 == Find(b3, <<58>>, 0)
      host == Lower(IF six THEN SubSeq(b3, 2, p4) ELSE IF p5 < 0 THEN b3 ELSE SubSeq(b3, 1, p5))
      rest == IF six THEN SubSeq(b3, p4 + 2, Len(b3)) ELSE IF p5 < 0 THEN <<>> ELSE SubSeq(b3, p5 + 1, Len(b3))
      port == Tail(rest)
      bad == (six /\ p4 < 0) \/ (~six /\ Len(Split(b3, <<58>>)) > 2) \/ host = <<>> \/ (Begins(rest, <<58>>) /\ (~AllD(port) \/ Norm(port) = <<48>> \/ NumCmp(port, <<54, 53, 53, 51, 53>>) > 0))
  IN IF bad THEN <<"bad">> ELSE <<"ok", scheme, host, IF Begins(rest, <<58>>) THEN Norm(port) ELSE <<48>>, path>>

(* ---- query f on the string s with arguments a: its definition ---- *)
B2(x) == x
Q(f, s, a) ==
  CASE f = "length" -> Len(s) [] f = "empty" -> s = <<>> [] f = "at" -> s[a[1] + 1]
    [] f = "eq" -> [i \in 1..4 |-> s = a[1]] [] f = "ne" -> s # a[1]
    [] f = "lt" -> [i \in 1..3 |-> Cmp(s, a[1]) < 0] [] f = "le" -> Cmp(s, a[1]) <= 0 [] f = "gt" -> Cmp(s, a[1]) > 0 [] f = "ge" -> Cmp(s, a[1]) >= 0
    [] f = "cmp" -> <<Cmp(s, a[1]), Cmp(Upper(s), Upper(a[1]))>> [] f = "natcmp" -> Natural(Upper(s), Upper(a[1]))
    [] f = "eqc" -> <<s = a[1], s # a[1], Cmp(s, a[1]) < 0, s = a[1]>>
    [] f = "hash" -> [i \in 1..4 |-> Hash(s, 2)] [] f = "hashc" -> <<Hash(s, 2), Hash(s, 2)>> [] f = "hash64" -> Hash(s, 4)
    [] f \in {"find", "findc"} -> Find(s, a[1], a[2]) [] f = "findn" -> Find(Lower(s), Lower(a[1]), a[2])
    [] f = "rfind" -> RFind(s, a[1], a[2]) [] f = "rfindn" -> RFind(Lower(s), Lower(a[1]), a[2]) [] f = "find_last" -> RFind(s, a[1], -1)
    [] f = "find_char" -> Find(s, <<a[1]>>, a[2]) [] f = "findmk" -> FindMk(s, a[1], a[2]) [] f = "first_diff" -> FirstDiff(s, a[1])
    [] f \in {"word_at", "word_atc"} -> At(s, a[1], a[2]) [] f = "match" -> Match(s, a[1]) [] f = "matchn" -> Match(Upper(s), Upper(a[1]))
    [] f \in {"begins", "beginsc"} -> Begins(s, a[1]) [] f = "ends" -> Ends(s, a[1]) [] f = "enclosed" -> Begins(s, a[1]) /\ Ends(s, a[1])
    [] f = "contains" -> [i \in 1..2 |-> Find(s, a[1], 0) >= 0]
    [] f = "subseq" -> Subseq(s, a[1]) [] f = "subseqi" -> Subseq(Lower(s), Lower(a[1])) [] f = "quoted" -> Quoted(s) [] f = "bigrams" -> Bigrams(s)
    [] f \in {"replace", "replacec"} -> Replace(s, a[1], a[2]) [] f = "replacen" -> ReplaceN(s, a[1], a[2]) [] f = "replace_first" -> ReplaceFirst(s, a[1], a[2])
    [] f = "br" -> Replace(Replace(s, <<13, 10>>, <<60, 98, 114, 62>>), <<10>>, <<60, 98, 114, 62>>)
    [] f = "repeat" -> Rep(s, a[1]) [] f = "insert" -> Insert(s, a[1], a[2]) [] f = "substr" -> Substr(s, a[1], a[2]) [] f = "substr_index" -> SubIdx(s, a[1], a[2])
    [] f = "left" -> SubSeq(s, 1, Min2(a[1], Len(s))) [] f = "right" -> SubSeq(s, Max2(a[1], 0) + 1, Len(s))
    [] f = "pad_decimals" -> PadDec(s, a[1]) [] f = "pad_zeros" -> PadZero(s, a[1]) [] f = "trim_prefix" -> (IF Begins(s, a[1]) THEN SubSeq(s, Len(a[1]) + 1, Len(s)) ELSE s)
    [] f = "trim_suffix" -> (IF Ends(s, a[1]) THEN SubSeq(s, 1, Len(s) - Len(a[1])) ELSE s) [] f = "lpad" -> Rep(a[2], a[1] - Len(s)) \o s [] f = "rpad" -> s \o Rep(a[2], a[1] - Len(s))
    [] f = "quote" -> a[1] \o s \o a[1] [] f = "unquote" -> (IF Quoted(s) THEN SubSeq(s, 2, Len(s) - 1) ELSE s)
    [] f = "slice_count" -> (IF s = <<>> \/ a[1] = <<>> THEN 0 ELSE Len(Split(s, a[1]))) [] f = "slice" -> Slice(s, a[1], a[2]) [] f = "slicec" -> Slice(s, <<a[1]>>, a[2])
    [] f = "split" -> SplitMax(s, a[1], a[2], a[3]) [] f = "rsplit" -> RSplit(s, a[1], a[2], a[3]) [] f = "split_spaces" -> Words(s, <<>>)
    [] f = "join" -> JoinS(a[1], s) [] f = "pool_join" -> JoinS(a[1], s) [] f = "count" -> Count(s, a[1], a[2], a[3]) [] f = "countn" -> Count(Lower(s), Lower(a[1]), a[2], a[3])
    [] f = "split_ints" -> (LET p == IF a[2] THEN Split(s, a[1]) ELSE NonEmpty(Split(s, a[1])) IN [i \in 1..Len(p) |-> ToInt(p[i], Max32, Min32)])
    [] f = "split_ints_mk" -> (LET p == IF a[2] THEN MkPieces(s, a[1]) ELSE NonEmpty(MkPieces(s, a[1])) IN [i \in 1..Len(p) |-> ToInt(p[i], Max32, Min32)])
    [] f = "upper" -> Upper(s) [] f = "lower" -> Lower(s) [] f = "dedent" -> Dedent(s) [] f = "indent" -> Indent(s, a[1]) [] f = "strip_edges" -> StripEdges(s, a[1], a[2])
    [] f = "strip_escapes" -> SelC(LAMBDA c : c >= 32, s) [] f = "lstrip" -> LStripC(s, a[1]) [] f = "rstrip" -> RStripC(s, a[1])
    [] f = "camel" -> (IF a[1] THEN Lower(Camel(s)) ELSE Camel(s)) [] f = "capitalize" -> Capital(s)
    [] f = "utf8" -> <<Utf8(s), Len(Utf8(s)), s, s>> [] f = "utf16" -> <<Utf16(s), s, s>> [] f = "utf" -> <<Utf8(s), Len(Utf8(s)), Utf16(s)>> [] f = "ascii" -> Ascii(s, a[1])
    [] f = "buffers" -> <<Ascii(s, FALSE), Utf8(s), Bytes(Utf16(s), 2), Bytes(s, 4)>>
    [] f = "to_int" -> ToInt(s, Max32, Min32) [] f = "to_int64" -> ToInt(s, Max64, Min64) [] f = "to_ints" -> [i \in 1..4 |-> ToInt(s, Max64, Min64)]
    [] f = "hex" -> OfBase(s, 16, IF a[1] THEN 120 ELSE 0, Max32, Min32) [] f = "hex64" -> OfBase(s, 16, IF a[1] THEN 120 ELSE 0, Max64, Min64) [] f = "bin64" -> OfBase(s, 2, IF a[1] THEN 98 ELSE 0, Max64, Min64)
    [] f = "to_bool" -> (IF AllD(s) THEN Norm(s) # <<48>> ELSE Lower(s) = <<116, 114, 117, 101>>)
    [] f = "valid_int" -> ValidInt(s) [] f = "valid_uint" -> ValidUInt(s) [] f = "valid_hex" -> ValidHex(s, a[1]) [] f = "valid_float" -> ValidFloat(s) [] f = "valid_bool" -> ValidBool(s)
    [] f = "is_numeric" -> IsNumeric(s) [] f = "valid_string" -> \A i \in 1..Len(s) : ~Surr(s[i]) /\ s[i] <= 1114111 [] f = "valid_id" -> ValidId(s) [] f = "make_id" -> MkId(s) [] f = "node_name" -> NodeName(s) [] f = "valid_file" -> ValidFile(s) [] f = "valid_ip" -> ValidIp4(s)
    [] f = "abs_path" -> <<IsAbs(s), ~IsAbs(s)>> [] f = "file" -> GetFile(s) [] f = "extension" -> Ext(s) [] f = "basename" -> Basename(s) [] f = "base_dir" -> BaseDir(s)
    [] f = "simplify" -> Simplify(s) [] f = "plus_file" -> PlusFile(s, a[1]) [] f \in {"append_path", "append_pathc"} -> AppendPath(s, a[1]) [] f = "clean_end" -> CleanEnd(s) [] f = "ensure_end" -> EnsureEnd(s)
    [] f = "prev_dir" -> PrevDir(s) [] f = "path_to" -> PathTo(s, a[1]) [] f = "path_to_file" -> PathTo(s, BaseDir(ToSl(a[1]))) \o GetFile(a[1])
    [] f = "c_escape" -> <<CEscS(s), s>> [] f = "c_unescape" -> CUn(s) [] f = "c_multi" -> CEscM(s) [] f = "json" -> JsonEsc(s) [] f = "xml" -> <<XmlEsc(s, a[1]), s>> [] f = "xml_un" -> XmlUn(s)
    [] f = "http" -> <<Pct(s, TRUE), s>> [] f = "uri" -> <<Pct(s, TRUE), s>> [] f = "percent" -> <<Pct(s, FALSE), s>> [] f = "percent_un" -> PctDec(s) [] f = "prop_enc" -> PropEnc(s)
    [] f = "url" -> Url(s) [] f = "num64" -> <<NumBase(a[1], a[2], a[3]), IF a[2] = 10 THEN a[1] ELSE <<>> >> [] f = "numu64" -> NumBase(a[1], a[2], a[3])
    [] f = "num_chars" -> Len(a[1]) [] f = "hexbuf" -> Esc(LAMBDA b : <<DigC(b \div 16, FALSE), DigC(b % 16, FALSE)>>, a[1])
Rel == {"similarity", "to_double", "split_floats", "split_floats_mk", "num", "num_real", "num_sci", "wrap"}
QOk(f, s, a, r) ==
  CASE f = "similarity" -> SameTol(r, Similar(s, a[1]), "1e-6", "1e-6")
    [] f = "to_double" -> (LET v == ToDouble(s) IN Len(r) = 4 /\ \A i \in 1..4 : (i = 4 /\ RLe("3.4e38", RAbs(v))) \/ SameTol(r[i], v, IF i <= 3 THEN "1e-14" ELSE "1e-6", 0))
    [] f \in {"split_floats", "split_floats_mk"} -> (LET p0 == IF f = "split_floats" THEN Split(s, a[1]) ELSE MkPieces(s, a[1]) p == IF a[2] THEN p0 ELSE NonEmpty(p0) IN Len(r) = Len(p) /\ \A i \in 1..Len(p) : SameTol(r[i], ToDouble(p[i]), "1e-6", 0))
    [] f = "num" -> Canon(r) /\ (Decimals(r) = <<>> \/ Decimals(r)[Len(Decimals(r))] # 48) /\ (LET p == IF a[2] < 0 THEN 6 ELSE Min2(a[2], 16) IN Len(Decimals(r)) <= p /\ Close(ToDouble(r), a[1], RAdd(RMul("0.50001", RPow(10, -p)), RMul(IF RLt(RAbs(a[1]), "1e17") THEN "1e-15" ELSE "1e-12", RAbs(a[1])))))
    [] f = "num_real" -> Canon(r) /\ Decimals(r) # <<>> /\ Len(Decimals(r)) <= 6 /\ Close(ToDouble(r), a[1], RAdd("1.0e-6", RMul(IF RLt(RAbs(a[1]), "1e17") THEN "1e-15" ELSE "1e-12", RAbs(a[1]))))
    [] f = "num_sci" -> SameTol(ToDouble(r), a[1], "5.1e-6", 0)
    [] f = "wrap" -> WrapOk(s, a[1], r)
    [] OTHER -> SameX(r, Q(f, s, a))
(* ---- registers ---- *)
Regs == DOMAIN [a |-> 0, b |-> 0, c |-> 0]
Set1(st, d, v) == [st EXCEPT ![d] = v]
SDo(st, e) ==
  LET d == e.a[1] s == st[d] a == e.a IN
  CASE e.op \in {"S.set", "S.setc", "S.setw"} -> Set1(st, d, a[2])
    [] e.op = "S.setn" -> Set1(st, d, SubSeq(a[2], 1, Min2(Len(a[2]), a[3])))
    [] e.op = "S.copy" -> Set1(st, d, st[a[2]])
    [] e.op = "S.plus" -> Set1(st, d, st[a[2]] \o st[a[3]])
    [] e.op = "S.plusc" -> Set1(st, d, IF a[4] THEN a[3] \o st[a[2]] ELSE st[a[2]] \o a[3])
    [] e.op = "S.append" -> Set1(st, d, s \o st[a[2]])
    [] e.op \in {"S.appendc", "S.appendw", "S.appendu"} -> Set1(st, d, s \o a[2])
    [] e.op = "S.appendch" -> Set1(st, d, Append(s, a[2]))
    [] e.op = "S.put" -> Set1(st, d, [s EXCEPT ![a[2] + 1] = a[3]])
    [] e.op = "S.putp" -> Set1(st, d, [s EXCEPT ![a[2] + 1] = a[3]])
    [] e.op = "S.cut" -> Set1(st, d, SubSeq(s, 1, a[2]))
    [] e.op = "S.clear" -> Set1(st, d, <<>>)
    [] e.op = "S.remove" -> Set1(st, d, SubSeq(s, 1, a[2]) \o SubSeq(s, a[2] + 2, Len(s)))
    [] e.op = "S.erase" -> Set1(st, d, Erase(s, a[2], a[3]))
    [] e.op = "S.parse8" -> Set1(st, d, Parse8(IF a[3] < 0 THEN a[2] ELSE SubSeq(a[2], 1, a[3]), a[4]).o)
    [] e.op = "S.parse16" -> Set1(st, d, Parse16(IF a[3] < 0 THEN a[2] ELSE SubSeq(a[2], 1, a[3])).o)
    [] e.op = "S.utf8" -> Set1(st, d, UnUtf8(a[2]))
    [] e.op = "S.keep" -> Set1(st, d, Q(a[3], st[a[2]], SubSeq(a, 4, Len(a))))
    [] OTHER -> st
============================================================================
