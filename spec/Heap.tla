------------------------------ MODULE Heap ------------------------------
(* The abstract state of the linear-algebra objects: named slots holding *)
(* values.  A vector is a sequence of reals; a matrix is                 *)
(* [r |-> rows, c |-> columns, d |-> sequence of rows]; a tensor is      *)
(* [x, y, z, d |-> sequence of planes of rows].  "null" is no object.    *)
EXTENDS Rl, FiniteSets, TLC

Put(st, k, v) == IF k \in DOMAIN st THEN [st EXCEPT ![k] = v] ELSE (k :> v) @@ st
Out(s, r) == [s |-> s, r |-> r]
Has(st, k) == k \in DOMAIN st
InitState == [x \in {} |-> 0]

(* sequences, 0-based as in the API *)
At(v, i) == v[i + 1]
InRange(v, i) == i >= 0 /\ i < Len(v)
SetAt(v, i, x) == [v EXCEPT ![i + 1] = x]
RemoveIdx(v, i) == SubSeq(v, 1, i) \o SubSeq(v, i + 2, Len(v))
InsertIdx(v, i, x) == SubSeq(v, 1, i) \o <<x>> \o SubSeq(v, i + 1, Len(v))
RemoveUnordered(v, i) == LET n == Len(v) IN SubSeq([v EXCEPT ![i + 1] = v[n]], 1, n - 1)
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
Full(n, x) == [i \in 1..n |-> x]
FindFrom(v, x, from) ==
  LET hit == {i \in (from + 1)..Len(v) : REq(v[i], x)} IN
  IF hit = {} THEN -1 ELSE (CHOOSE i \in hit : \A j \in hit : i <= j) - 1
Count(v, x) == Cardinality({i \in 1..Len(v) : REq(v[i], x)})
MapS(F(_), v) == [i \in 1..Len(v) |-> F(v[i])]
RECURSIVE SetToSeqI(_)
SetToSeqI(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o SetToSeqI(S \ {m})
SortedR(v) == SortSeq(v, RLt)
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))
(* elements equal to x are each replaced by the last remaining element *)
RECURSIVE EraseMulti(_, _, _, _)
EraseMulti(v, x, from, n) == LET i == FindFrom(v, x, from) IN
  IF i = -1 THEN [v |-> v, n |-> n] ELSE EraseMulti(RemoveUnordered(v, i), x, i, n + 1)
OrderedPos(v, x) == LET big == {i \in 1..Len(v) : RLt(x, v[i])} IN
  IF big = {} THEN Len(v) ELSE (CHOOSE i \in big : \A j \in big : i <= j) - 1
Resized(v, n, x) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o Full(n - Len(v), x)
ApproxEq(x, y, tol) ==   \* Math::is_equal_approx with explicit tolerance
  IF REq(x, y) THEN TRUE ELSE RLt(RAbs(RSub(x, y)), tol)
=========================================================================
