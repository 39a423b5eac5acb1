---------------------------- MODULE DataSpec ----------------------------
(* MLPPData and MLPPUtilities: batching, splitting, metrics, transforms,  *)
(* text processing, loading and saving.                                   *)
EXTENDS LinOps
Sub(A, lo, n) == [r |-> n, c |-> A.c, d |-> SubSeq(A.d, lo + 1, lo + n)]
(* ---- mini-batches: consecutive, size n div k, remainder left out ---- *)
BatchSize(n, k) == n \div k
BatchesM(A, k) == [b \in 1..k |-> Sub(A, (b - 1) * BatchSize(A.r, k), BatchSize(A.r, k))]
BatchesV(v, n, k) == LET s == BatchSize(n, k) IN [b \in 1..k |-> SubSeq(v, (b - 1) * s + 1, b * s)]
(* the std::vector forms give the remainder to the last batch *)
StdCut(x, k) == LET n == Len(x) s == n \div k IN [b \in 1..k |-> SubSeq(x, (b - 1) * s + 1, IF b = k THEN n ELSE b * s)]

(* ---- train/test split: any distribution of the sample pairs ---- *)
Pairs(X, Y) == [i \in 1..X.r |-> X.d[i] \o Y.d[i]]
Occ(s, x) == Cardinality({i \in 1..Len(s) : SameX(s[i], x)})
PermOf(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Occ(s, s[i]) = Occ(t, s[i])
Shaped(A, c) == A.c = c \/ A.r = 0
SplitOk(X, Y, frac, r) ==
  LET nt == RFun("floor", RMul(frac, X.r)) IN
  /\ r.test[1].r = nt /\ r.test[2].r = nt
  /\ r.train[1].r = X.r - nt /\ r.train[2].r = X.r - nt
  /\ \A s \in {"train", "test"} : Shaped(r[s][1], X.c) /\ Shaped(r[s][2], Y.c)
  /\ PermOf(Pairs(X, Y), Pairs(r.train[1], r.train[2]) \o Pairs(r.test[1], r.test[2]))

(* ---- metrics ---- *)
CountI(n, P(_)) == Cardinality({i \in 1..n : P(i)})
Tp(h, y) == LET P(i) == REq(h[i], 1) /\ REq(y[i], 1) IN CountI(Len(h), P)
Fp(h, y) == LET P(i) == REq(h[i], 1) /\ ~REq(y[i], 1) IN CountI(Len(h), P)
Tn(h, y) == LET P(i) == ~REq(h[i], 1) /\ REq(y[i], h[i]) IN CountI(Len(h), P)
Fn(h, y) == LET P(i) == ~REq(h[i], 1) /\ ~REq(y[i], h[i]) IN CountI(Len(h), P)
Recall(h, y) == RDiv(Tp(h, y), Tp(h, y) + Fn(h, y))
Precision(h, y) == RDiv(Tp(h, y), Tp(h, y) + Fp(h, y))
Rnd(x) == RFun("round", x)
Correct(h, y) == LET P(i) == REq(Rnd(h[i]), y[i]) IN CountI(Len(h), P)
CorrectRows(A, B) == LET P(i) == \A j \in 1..A.c : REq(Rnd(A.d[i][j]), B.d[i][j]) IN CountI(A.r, P)
CorrectInt(h, y) == LET P(i) == h[i] = Rnd(y[i]) IN CountI(Len(h), P)
Metric(f, h, y) ==
  CASE f = "tfpn" -> <<Tp(h, y), Fp(h, y), Tn(h, y), Fn(h, y)>>
    [] f = "recall" -> Recall(h, y)
    [] f = "precision" -> Precision(h, y)
    [] f = "accuracy" -> RDiv(Tp(h, y) + Tn(h, y), Len(h))
    [] f = "f1_score" -> RDiv(RMul(2, RMul(Precision(h, y), Recall(h, y))), RAdd(Precision(h, y), Recall(h, y)))
    [] f \in {"performance", "performance_vec"} -> RDiv(Correct(h, y), Len(h))
    [] f = "performance_pool" -> RDiv(CorrectInt(h, y), Len(h))
    [] f \in {"performance_std", "performance_mat"} -> RDiv(CorrectRows(h, y), h.r)

(* ---- transforms ---- *)
Center(v) == LET m == Mean(v) IN [i \in 1..Len(v) |-> RSub(v[i], m)]
Sd(v) == RSqrt(RDiv(NormSq(Center(v)), Len(v) - 1))
ByRow(F(_), A) == [A EXCEPT !.d = [i \in 1..A.r |-> F(A.d[i])]]
Normalise(v) == LET c == Center(v) s == Sd(v) IN [i \in 1..Len(v) |-> RDiv(c[i], s)]
Scale01(v) == LET lo == Red("min_element", v) hi == Red("max_element", v) IN [i \in 1..Len(v) |-> RDiv(RSub(v[i], lo), RSub(hi, lo))]
OneHot(y, k) == LET F(i, j) == IF RTrunc(y[i]) = j - 1 THEN 1 ELSE 0 IN Mk(Len(y), k, F)
UnHot(A) == [i \in 1..A.r |-> ArgBest(A.d[i], RGt)]
Transform(f, A) ==
  CASE f = "feature_scaling" -> Transpose(ByRow(Scale01, Transpose(A)))
    [] f = "mean_centering" -> ByRow(Center, A)
    [] f = "mean_normalization" -> ByRow(Normalise, A)

(* ---- text: a text is a sequence of one-character strings ---- *)
Punct == {",", "!", ".", "-"}
Upper_ == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lower_ == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
LowC(c) == IF \E k \in 1..26 : Upper_[k] = c THEN Lower_[CHOOSE k \in 1..26 : Upper_[k] = c] ELSE c
LowS(t) == MapS(LowC, t)
(* a sentence ends at a full stop that no other full stop follows; the   *)
(* one space after it belongs to no sentence                             *)
RECURSIVE SentencesFrom(_, _, _)
SentencesFrom(t, i, from) ==
  IF i > Len(t) THEN (IF from <= Len(t) THEN <<SubSeq(t, from, Len(t))>> ELSE <<>>)
  ELSE IF t[i] = "." /\ (i = Len(t) \/ t[i + 1] # ".")
       THEN LET nx == IF i < Len(t) /\ t[i + 1] = " " THEN i + 2 ELSE i + 1 IN <<SubSeq(t, from, i)>> \o SentencesFrom(t, nx, nx)
       ELSE SentencesFrom(t, i + 1, from)
Sentences(t) == SentencesFrom(t, 1, 1)
(* a segment ends at a space or a punctuation mark, which is a segment *)
RECURSIVE SegmentFrom(_, _, _)
SegmentFrom(t, i, from) ==
  IF i > Len(t) THEN (IF from <= Len(t) THEN <<SubSeq(t, from, Len(t))>> ELSE <<>>)
  ELSE IF t[i] = " " THEN <<SubSeq(t, from, i - 1)>> \o SegmentFrom(t, i + 1, i + 1)
  ELSE IF t[i] \in Punct THEN LET nx == IF i < Len(t) /\ t[i + 1] = " " THEN i + 2 ELSE i + 1 IN
         <<SubSeq(t, from, i - 1), <<t[i]>>>> \o SegmentFrom(t, nx, nx)
  ELSE SegmentFrom(t, i + 1, from)
Segments(t) == SegmentFrom(t, 1, 1)
In(s, x) == \E i \in 1..Len(s) : SameX(s[i], x)
Filter(s, Keep(_)) == FlattenS([i \in 1..Len(s) |-> IF Keep(s[i]) THEN <<s[i]>> ELSE <<>>])
NoEmpty(s) == LET K(x) == x # <<>> IN Filter(s, K)
NoSpaces(s) == LET K(c) == c # " " IN [i \in 1..Len(s) |-> Filter(s[i], K)]
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE LET f == Distinct(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF In(f, x) THEN f ELSE Append(f, x)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
Tokens(t) == LET s == Segments(t) d == Distinct(s) IN [i \in 1..Len(s) |-> IndexOf(d, s[i])]
NoStop(words, stop) == LET K(x) == ~In(stop, x) IN Filter(words, K)
Words(t, stop) == NoStop(Segments(LowS(t)), stop)
RECURSIVE JoinSp(_)
JoinSp(ts) == IF Len(ts) = 1 THEN ts[1] ELSE IF ts = <<>> THEN <<>> ELSE Head(ts) \o <<" ">> \o JoinSp(Tail(ts))
WordList(ts, stop) == Distinct(Words(JoinSp(ts), stop))
Vocab(ts, stop) == NoEmpty(WordList(ts, stop))
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Bag(ts, stop, binary) == LET vs == Vocab(ts, stop) W == [i \in 1..Len(ts) |-> Words(ts[i], stop)]
                             F(i, j) == LET n == CountIn(W[i], vs[j]) IN IF binary /\ n > 1 THEN 1 ELSE n IN Mk(Len(ts), Len(vs), F)
TfIdf(ts, stop) ==
  LET vs == Vocab(ts, stop) W == [i \in 1..Len(ts) |-> Words(ts[i], stop)]
      df(j) == Cardinality({i \in 1..Len(ts) : In(W[i], vs[j])})
      F(i, j) == RMul(RDiv(CountIn(W[i], vs[j]), Len(W[i])), RLn(RDiv(Len(ts), df(j)))) IN Mk(Len(ts), Len(vs), F)
(* stemming: the longest known suffix before a delimiter is removed *)
StemDelim == {" ", ",", "-", ".", "!"}
Suffix(w, k) == SubSeq(w, Len(w) - k + 1, Len(w))
StemWord(w, suf) == LET hit == {k \in 1..Len(w) : In(suf, Suffix(w, k))} IN
  IF hit = {} THEN w ELSE SubSeq(w, 1, Len(w) - (CHOOSE k \in hit : \A j \in hit : j <= k))
RECURSIVE StemFrom(_, _, _, _)
StemFrom(t, i, w, suf) ==
  IF i > Len(t) THEN StemWord(w, suf)
  ELSE IF t[i] \in StemDelim THEN StemWord(w, suf) \o <<t[i]>> \o StemFrom(t, i + 1, <<>>, suf)
  ELSE StemFrom(t, i + 1, Append(w, t[i]), suf)
RECURSIVE TrimR(_)
TrimR(t) == IF t # <<>> /\ t[Len(t)] = " " THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Text(st, a) ==
  LET f == a[1] x == a[2] IN
  CASE f = "split_sentences" -> Sentences(x)
    [] f = "segment" -> Segments(x)
    [] f = "tokenize" -> Tokens(x)
    [] f = "remove_stop_words" -> Words(x, a[3])
    [] f = "remove_stop_words_vec" -> NoStop(x, a[3])
    [] f = "remove_empty" -> NoEmpty(x)
    [] f = "remove_spaces" -> NoSpaces(x)
    [] f = "create_word_list" -> WordList(x, a[3])
    [] f = "vec_to_set" -> Distinct(x)
    [] f = "vec_to_setnv" -> Distinct(x)
    [] f = "to_lower" -> LowS(x)
    [] f = "split" -> x
    [] f = "bag_of_words" -> Bag(x, a[3], FALSE)
    [] f = "bag_binary" -> Bag(x, a[3], TRUE)
    [] f = "tfidf" -> TfIdf(x, a[3])
    [] f = "word_to_vec" -> <<Vocab(x, a[3]), Len(Vocab(x, a[3])), a[4], TRUE>>

(* ---- files: <<loader, k, rows of numerals, ...>> ---- *)
NumRow(row) == MapS(R, row)
LoadSup(rows, k) == <<OfRows([i \in 1..Len(rows) |-> SubSeq(NumRow(rows[i]), 1, k)]), [i \in 1..Len(rows) |-> NumRow(rows[i])[k + 1]]>>
Load(f, k, rows) ==
  CASE f = "supervised" -> LoadSup(rows, k)
    [] f = "unsupervised" -> <<OfRows([i \in 1..Len(rows) |-> SubSeq(NumRow(rows[i]), 1, k)])>>
    [] f \in {"simple", "fires_and_crime"} -> <<[i \in 1..Len(rows) |-> R(rows[i][1])], [i \in 1..Len(rows) |-> R(rows[i][2])]>>
    [] f \in {"breast_cancer", "breast_cancer_svc"} -> LoadSup(rows, 30)
    [] f = "california_housing" -> LoadSup(rows, 13)
    [] f \in {"iris", "wine"} -> LET l == LoadSup(rows, 4) IN <<l[1], OneHot(l[2], 3)>>
    [] f \in {"mnist_train", "mnist_test"} -> LET l == LoadSup(rows, 784) IN <<l[1], OneHot(l[2], 10)>>
    [] f = "names" -> rows
Layer(s, k) == IF k > -1 THEN s \o " for layer " \o ToString(k) ELSE s
SaveLines(a) ==   \* <<file, kind, weights, initial, bias, append?, layer>>
  CASE a[2] = "vb" -> <<Layer("Weight(s)", a[7])>> \o a[3] \o <<Layer("Bias", a[7]), a[5]>>
    [] a[2] = "vib" -> <<Layer("Weight(s)", a[7])>> \o a[3] \o <<Layer("Initial(s)", a[7])>> \o a[4] \o <<Layer("Bias", a[7]), a[5]>>
    [] a[2] = "mb" -> <<Layer("Weight(s)", a[7])>> \o FlattenS(a[3]) \o <<Layer("Bias(es)", a[7])>> \o a[5]

Sigma(kind, n, m) ==   \* the scale of the named weight distribution
  CASE kind = "xavier_normal" -> RSqrt(RDiv(2, n + m))
    [] kind = "xavier_uniform" -> RSqrt(RDiv(6, n + m))
    [] kind = "he_normal" -> RSqrt(RDiv(2, n))
    [] kind = "he_uniform" -> RSqrt(RDiv(6, n))
    [] kind = "le_cun_normal" -> RSqrt(RDiv(1, n))
    [] kind = "le_cun_uniform" -> RSqrt(RDiv(3, n))
    [] kind = "uniform" -> RDiv(1, RSqrt(n))
    [] kind = "default" -> 1
NormalK == {"xavier_normal", "he_normal", "le_cun_normal"}
(* an initialised sample is inside the support and spread over it; the   *)
(* probability that a correct generator fails is below 1e-12 for the     *)
(* sample sizes used (at least 300)                                      *)
InitOk(kind, n, m, w) ==
  LET s == Sigma(kind, n, m) k == Len(w) mean == Mean(w) IN
  CASE kind \in NormalK -> LET v == RDiv(NormSq(w), k) IN
         /\ RLt(RMul(R("0.5"), RSq(s)), v) /\ RLt(v, RMul(R("1.7"), RSq(s)))
         /\ RLt(RAbs(mean), RMul(R("0.5"), s))
         /\ \E i \in 1..k : RLt(w[i], 0)
    [] kind = "default" -> /\ \A i \in 1..k : RLe(0, w[i]) /\ RLe(w[i], 1)
                           /\ RLt(Red("min_element", w), R("0.15")) /\ RGt(Red("max_element", w), R("0.85"))
    [] OTHER -> /\ \A i \in 1..k : RLe(RAbs(w[i]), RMul(s, R("1.0000001")))
                /\ RLt(Red("min_element", w), RMul(R("-0.8"), s)) /\ RGt(Red("max_element", w), RMul(R("0.8"), s))

DDo(st, e) ==
  LET a == e.a IN
  CASE e.op = "B.m" -> Out(st, BatchesM(st[a[2]], a[3]))
    [] e.op = "B.mv" -> Out(st, <<BatchesM(st[a[2]], a[4]), BatchesV(st[a[3]], st[a[2]].r, a[4])>>)
    [] e.op = "B.mm" -> Out(st, <<BatchesM(st[a[2]], a[4]), BatchesM(st[a[3]], a[4])>>)
    [] e.op = "B.std" -> Out(st, [i \in 1..(Len(a) - 1) |-> StdCut(a[i + 1], a[1])])
    [] e.op = "K" -> Out(st, Metric(a[1], a[2], a[3]))
    [] e.op = "D.m" -> Out(Put(st, a[3], Transform(a[1], st[a[2]])), "ok")
    [] e.op = "D.onehot" -> Out(Put(st, a[2], OneHot(st[a[1]], a[3])), "ok")
    [] e.op = "D.unhot" -> Out(st, UnHot(a[1]))
    [] e.op = "X" -> Out(st, Text(st, a))
    [] e.op = "F.load" -> Out(st, Load(a[1], a[2], a[3]))
    [] e.op = "F.save" -> Out(Put(st, a[1], (IF a[6] /\ Has(st, a[1]) THEN st[a[1]] ELSE <<>>) \o SaveLines(a)), "ok")
    [] OTHER -> MDo(st, e)
Rel == {"B.split", "W.init", "X.stem"}
RelOkD(st, e) ==
  LET a == e.a IN
  CASE e.op = "B.split" -> SplitOk(st[a[2]], st[a[3]], a[4], e.r)
    \* rows of one weight are the values of a[2] calls, joined
    [] e.op = "W.init" -> IF a[1] = "bias" THEN InitOk("default", 1, 1, e.r) ELSE InitOk(a[1], a[2], a[3], e.r)
    [] e.op = "X.stem" -> TrimR(e.r) = TrimR(StemFrom(a[1], 1, <<>>, a[2]))
Expected(st, e) == IF e.op \in Rel THEN "relational" ELSE DDo(st, e)
Conforms(st, e) ==
  IF e.op \in Rel THEN RelOkD(st, e) /\ Same(e.s, st)
  ELSE LET o == DDo(st, e) IN SameTol(o.r, e.r, "1e-8", "1e-9") /\ SameTol(o.s, e.s, IF e.op = "F.save" THEN "1e-5" ELSE "1e-8", "1e-9")
After(st, e) == e.s
=========================================================================
