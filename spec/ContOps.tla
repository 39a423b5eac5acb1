------------------------------ MODULE ContOps ------------------------------
(* Abstract containers: a sequence for the sequence kinds, a queue for the  *)
(* ring buffer, a sequence of <<key, value>> pairs for the maps and sets    *)
(* (in key order, or in insertion order for those that keep it).            *)
EXTENDS Heap, Integers, Sequences
VecK == {"vec", "vec.t"}  PoolK == {"pool", "pool.t"}  LocK == {"lvec", "lvec.t", "tvec", "tvec.t"}  ListK == {"list", "list.t"}
SeqK == VecK \cup PoolK \cup LocK \cup ListK
SortedK == {"rbmap", "rbset", "vmap", "vset", "oghash", "oghash.c"}
SetK == {"rbset", "vset", "hset", "hset.c", "hset.0"}
HsK == {"hset", "hset.c", "hset.0"}
MapK == SortedK \cup HsK \cup {"hmap", "hmap.c", "hmap.0", "ohash", "ohash.c"}
Slots(s) == [k \in (DOMAIN s) \ {"%"} |-> s[k]]
\* before the first greater element
Ins(v, x) == LET big == {i \in 1..Len(v) : x < v[i]} IN InsertIdx(v, IF big = {} THEN Len(v) ELSE (CHOOSE i \in big : \A j \in big : i <= j) - 1, x)
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
FindI(v, x, from) == LET hit == {i \in (from + 1)..Len(v) : v[i] = x} IN IF from < 0 \/ hit = {} THEN -1 ELSE SetMin(hit) - 1
RFindI(v, x, from) == LET n == Len(v) f0 == IF from < 0 THEN n + from ELSE from f == IF f0 < 0 \/ f0 >= n THEN n - 1 ELSE f0
                          hit == {i \in 1..(f + 1) : v[i] = x} IN IF hit = {} THEN -1 ELSE SetMax(hit) - 1
CountI(v, x) == Cardinality({i \in 1..Len(v) : v[i] = x})
RECURSIVE EraseM(_, _, _, _)
EraseM(v, x, from, n) == LET i == FindI(v, x, from) IN IF i = -1 THEN [v |-> v, n |-> n] ELSE EraseM(RemoveUnordered(v, i), x, i, n + 1)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceV(v, b, e) == LET n == Len(v) b0 == Clamp(b, 0 - n, n) e0 == Clamp(e, 0 - n, n)
                       bb == IF b0 < 0 THEN b0 + n ELSE b0 ee == IF e0 < 0 THEN e0 + n ELSE e0 IN SubSeq(v, bb + 1, ee)
SubV(v, f, t) == LET n == Len(v) ff == IF f < 0 THEN n + f ELSE f tt == IF t < 0 THEN n + t ELSE t IN
                 IF ~InRange(v, ff) \/ ~InRange(v, tt) THEN <<>> ELSE SubSeq(v, ff + 1, tt + 1)
MoveTo(v, i, j) == LET x == v[i + 1] w == RemoveIdx(v, i) IN InsertIdx(w, j, x)
\* result of a call on a sequence: d |-> new content, r |-> what the call returns
Ret(d, r) == [d |-> d, r |-> r]
SeqCall(k, d, f, x) ==   \* x: the arguments
  LET n == Len(d) vp == k \in VecK \cup PoolK list == k \in ListK IN
  CASE f = "push" -> Ret(Append(d, x[1]), "ok")
    [] f = "pushf" -> Ret(<<x[1]>> \o d, "ok")
    [] f = "popf" -> Ret(IF n = 0 THEN d ELSE Tail(d), "ok")
    [] f = "popb" -> Ret(IF n = 0 THEN d ELSE SubSeq(d, 1, n - 1), "ok")
    [] f = "insa" -> Ret(IF x[1] >= n THEN Append(d, x[2]) ELSE InsertIdx(d, x[1] + 1, x[2]), x[2])
    [] f = "insb" -> Ret(IF x[1] >= n THEN Append(d, x[2]) ELSE InsertIdx(d, x[1], x[2]), x[2])
    [] f = "remove" -> Ret(IF InRange(d, x[1]) THEN RemoveIdx(d, x[1]) ELSE d, IF list THEN InRange(d, x[1]) ELSE "ok")
    [] f = "erasea" -> Ret(RemoveIdx(d, x[1]), "ok")
    [] f = "removeu" -> Ret(IF InRange(d, x[1]) THEN RemoveUnordered(d, x[1]) ELSE d, "ok")
    [] f = "erase" -> LET i == FindI(d, x[1], 0) IN Ret(IF i < 0 THEN d ELSE RemoveIdx(d, i), i >= 0)
    [] f = "erasem" -> LET o == EraseM(d, x[1], 0, 0) IN Ret(o.v, o.n)
    [] f = "insert" -> LET ok == x[1] >= 0 /\ x[1] <= n IN Ret(IF ok THEN InsertIdx(d, x[1], x[2]) ELSE d, IF ~ok /\ vp THEN "err" ELSE "ok")
    [] f \in {"set", "wset", "pset"} -> Ret(IF InRange(d, x[1]) THEN SetAt(d, x[1], x[2]) ELSE d, "ok")
    [] f = "selfset" -> Ret(SetAt(d, x[1], At(d, x[2])), "ok")
    [] f = "resize" -> IF x[1] < 0 THEN Ret(d, "err") ELSE Ret(IF x[1] <= n THEN SubSeq(d, 1, x[1]) ELSE d \o Full(x[1] - n, 0), "ok")
    [] f = "locked" -> IF n = 0 THEN Ret(Full(x[1], 0), "ok") ELSE Ret(d, "locked")
    [] f = "snap" -> Ret(SetAt(d, x[1], x[2]), d)
    [] f = "fill" -> Ret(Full(n, x[1]), "ok")
    [] f = "selffill" -> Ret(Full(n, At(d, x[1])), "ok")
    [] f = "invert" -> Ret(Rev(d), "ok")
    [] f \in {"sort", "sorti"} -> Ret(Sorted(d), "ok")
    [] f = "sortd" -> Ret(Rev(Sorted(d)), "ok")
    [] f = "oins" -> Ret(Ins(d, x[1]), "ok")
    [] f = "find" -> Ret(d, FindI(d, x[1], IF list THEN 0 ELSE x[2]))
    [] f = "rfind" -> Ret(d, RFindI(d, x[1], x[2]))
    [] f = "count" -> Ret(d, <<CountI(d, x[1]), CountI(d, x[1]) > 0, CountI(d, x[1]) > 0>>)
    [] f = "slice" -> Ret(d, SliceV(d, x[1], IF Len(x) = 2 THEN x[2] ELSE 1000000))
    [] f = "sub" -> Ret(d, SubV(d, x[1], x[2]))
    [] f = "tob" -> Ret(MoveTo(d, x[1], n - 1), "ok")
    [] f = "tof" -> Ret(MoveTo(d, x[1], 0), "ok")
    [] f = "before" -> Ret(IF x[2] < 0 THEN MoveTo(d, x[1], n - 1) ELSE MoveTo(d, x[1], IF x[1] < x[2] THEN x[2] - 1 ELSE x[2]), "ok")
    [] f = "swap" -> Ret([d EXCEPT ![x[1] + 1] = d[x[2] + 1], ![x[2] + 1] = d[x[1] + 1]], "ok")
    [] f = "clear" -> Ret(<<>>, "ok")
    [] f = "reset" -> Ret(<<>>, 0)
    [] f = "reserve" -> Ret(d, TRUE)
    [] f = "get" -> Ret(d, <<At(d, x[1]), At(d, x[1])>>)
    [] f = "empty" -> Ret(d, <<n = 0, n>>)
\* maps and sets
MPos(d, k) == LET h == {i \in 1..Len(d) : d[i][1] = k} IN IF h = {} THEN 0 ELSE SetMin(h)
MPut(kind, d, k, v, front) ==
  LET p == MPos(d, k) IN
  IF p > 0 THEN (IF kind \in SetK THEN d ELSE [d EXCEPT ![p] = <<k, v>>])
  ELSE IF kind \in SortedK THEN LET n == Cardinality({i \in 1..Len(d) : d[i][1] < k}) IN InsertIdx(d, n, <<k, v>>)
  ELSE IF front THEN <<<<k, v>>>> \o d ELSE Append(d, <<k, v>>)
MDel(kind, d, p) == IF p = 0 THEN d ELSE IF kind \in HsK THEN RemoveUnordered(d, p - 1) ELSE RemoveIdx(d, p - 1)
MAt(d, p) == IF p < 1 \/ p > Len(d) THEN "none" ELSE d[p]
MapCall(kind, d, f, x) ==
  LET n == Len(d) k == IF Len(x) > 0 THEN x[1] ELSE 0 p == MPos(d, k) IN
  CASE f \in {"ins", "insf"} -> LET v == IF kind \in SetK THEN 0 ELSE x[2] IN Ret(MPut(kind, d, k, v, f = "insf"), <<k, v>>)
    [] f = "ref" -> Ret(MPut(kind, d, k, x[2], FALSE), "ok")
    [] f = "touch" -> Ret(IF p > 0 THEN d ELSE MPut(kind, d, k, 0, FALSE), IF p > 0 THEN d[p][2] ELSE 0)
    [] f = "vset" -> Ret([d EXCEPT ![k + 1] = <<d[k + 1][1], x[2]>>], "ok")
    [] f = "has" -> Ret(d, p > 0)
    [] f \in {"erase", "erasee", "remove"} -> Ret(MDel(kind, d, p), p > 0)
    [] f = "erasea" -> Ret(RemoveIdx(d, k), "ok")
    [] f = "get" -> Ret(d, MAt(d, p))
    [] f = "near" -> Ret(d, MAt(d, Cardinality({i \in 1..n : d[i][1] <= k})))
    [] f = "lower" -> Ret(d, MAt(d, Cardinality({i \in 1..n : d[i][1] < k}) + 1))
    [] f = "nearest" -> Ret(d, IF n = 0 THEN -1 ELSE Cardinality({i \in 1..n : d[i][1] < k}))
    [] f = "step" -> Ret(d, <<MAt(d, p + 1), MAt(d, p - 1)>>)
    [] f = "balanced" -> Ret(d, TRUE)
    [] f = "reserve" -> Ret(d, TRUE)
    [] f = "size" -> Ret(d, IF kind \in {"rbmap", "rbset"} THEN n ELSE <<n, n = 0>>)
    [] f \in {"clear", "reset"} -> Ret(<<>>, "ok")
\* ring buffer of 2^p cells, one of which stays free
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
Cap(p) == Pow2[p + 1] - 1
MinI(a, b) == IF a < b THEN a ELSE b
RingV(p, d) == [k |-> "ring", d |-> d, p |-> p, left |-> Cap(p) - Len(d), size |-> Cap(p) + 1]
RingCall(c, f, x) ==
  LET d == c.d n == Len(d) room == c.left q(dd) == RingV(c.p, dd) IN
  CASE f = "write" -> Ret(IF room > 0 THEN q(Append(d, x[1])) ELSE c, IF room > 0 THEN "ok" ELSE "full")
    [] f = "writen" -> LET m == MinI(room, Len(x[1])) IN Ret(q(d \o SubSeq(x[1], 1, m)), m)
    [] f = "read" -> IF n = 0 THEN Ret(c, 0) ELSE Ret(q(Tail(d)), d[1])
    [] f = "readn" -> LET m == MinI(n, x[1]) IN Ret(IF x[2] THEN q(SubSeq(d, m + 1, n)) ELSE c, SubSeq(d, 1, m))
    [] f = "copy" -> Ret(c, SubSeq(d, x[1] + 1, MinI(n, x[1] + x[2])))
    [] f = "find" -> LET h == {i \in (x[2] + 1)..MinI(n, x[2] + x[3]) : d[i] = x[1]} IN Ret(c, IF h = {} THEN -1 ELSE SetMin(h) - 1 - x[2])
    [] f = "adv" -> LET m == MinI(n, x[1]) IN Ret(q(SubSeq(d, m + 1, n)), m)
    [] f = "dec" -> LET m == MinI(n, x[1]) IN Ret(q(SubSeq(d, 1, n - m)), m)
    [] f = "clear" -> Ret(q(<<>>), "ok")
    [] f = "resize" -> Ret(RingV(x[1], d), "ok")
Call(c, f, x) ==
  IF c.k = "ring" THEN RingCall(c, f, x)
  ELSE LET o == IF c.k \in SeqK THEN SeqCall(c.k, c.d, f, x) ELSE MapCall(c.k, c.d, f, x) IN Ret([k |-> c.k, d |-> o.d], o.r)
Without(st, k) == [j \in (DOMAIN st) \ {k} |-> st[j]]
CDo(st, e) ==
  LET a == e.a op == e.op IN
  CASE op = "Q.new" -> Out(Put(st, a[1], IF a[2] = "ring" THEN RingV(a[3], <<>>) ELSE [k |-> a[2], d |-> <<>>]), "ok")
    [] op \in {"Q.copy", "Q.assign"} -> Out(Put(st, a[1], st[a[2]]), "ok")
    [] op = "Q.del" -> Out(Without(st, a[1]), "ok")
    [] op = "Q.append" -> Out(Put(st, a[1], [st[a[1]] EXCEPT !.d = @ \o st[a[2]].d]), "ok")
    [] op = "Q.conv" -> Out(Put(st, a[1], [k |-> a[3], d |-> st[a[2]].d]), "ok")
    [] op = "Q" -> LET o == Call(st[a[1]], a[2], SubSeq(a, 3, Len(a))) IN Out(Put(st, a[1], o.d), o.r)
\* sorting [array of <<key, id>>, how, first, last, nth]
SortOk(v, how, f, l, m, w) ==
  LET n == Len(v) InOrder(i, j) == \A x \in (i + 1)..(j - 1) : w[x][1] <= w[x + 1][1] IN
  /\ Len(w) = n /\ {v[i] : i \in 1..n} = {w[i] : i \in 1..n}      \* a permutation: identities are distinct
  /\ (how # "sort" => \A i \in (1..f) \cup ((l + 1)..n) : v[i] = w[i])
  /\ (CASE how = "sort" -> InOrder(0, n)
        [] how \in {"range", "heap"} -> InOrder(f, l)
        [] how = "partial" -> InOrder(f, m) /\ \A i \in (f + 1)..m, j \in (m + 1)..l : w[i][1] <= w[j][1]
        [] how \in {"nth", "deep"} -> m >= l \/ ((\A i \in (f + 1)..m : w[i][1] <= w[m + 1][1]) /\ \A j \in (m + 2)..l : w[m + 1][1] <= w[j][1])
        [] how = "intro" -> (m > 0 \/ l - f <= 16) \/ InOrder(f, l))
\* instances and pooled storage: none misused, none left over, shared storage no larger than the contents
RECURSIVE SumLen(_, _)
SumLen(st, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(st[k].d) + SumLen(st, S \ {k})
Tracked == {"lvec.t", "tvec.t", "list.t", "vec.t", "pool.t"}
Plain == {"vec", "pool", "lvec", "tvec", "list", "ring"}
StoreOk(st, h) ==
  LET ts == {k \in DOMAIN st : st[k].k \in Tracked} sh == {k \in ts : st[k].k \in {"vec.t", "pool.t"}} lens == {Len(st[k].d) : k \in sh} \cup {0} IN
  /\ h.bad = 0
  /\ (DOMAIN st = {} => h.live = 0 /\ h.pool = 0)
  /\ h.pool <= Cardinality({k \in DOMAIN st : st[k].k \in PoolK /\ Len(st[k].d) > 0})
  /\ ((\A k \in DOMAIN st : st[k].k \in Tracked \cup Plain) =>
        /\ h.live <= SumLen(st, ts)
        /\ h.live >= SumLen(st, ts \ sh) + SetMax(lens))
=========================================================================
