------------------------------- MODULE Mat -------------------------------
(* Mathematical matrices: [r |-> rows, c |-> cols, d |-> rows of reals]. *)
EXTENDS Heap

Mk(r, c, F(_, _)) == Strict([r |-> r, c |-> c, d |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]])
NewM == [r |-> 0, c |-> 0, d |-> <<>>]
OfRows(d) == IF d = <<>> \/ Len(d[1]) = 0 THEN NewM ELSE [r |-> Len(d), c |-> Len(d[1]), d |-> d]
SameSize(A, B) == A.r = B.r /\ A.c = B.c
FlatM(A) == FlattenS(A.d)
EmptyM(A) == A.r * A.c = 0
Transpose(A) == LET F(i, j) == A.d[j][i] IN Mk(A.c, A.r, F)
Col(A, j) == [i \in 1..A.r |-> A.d[i][j]]
Mult(A, B) == LET bt == Strict([j \in 1..B.c |-> Col(B, j)])
                  F(i, j) == RDot(A.d[i], bt[j]) IN Mk(A.r, B.c, F)
MapM(G(_), A) == LET F(i, j) == G(A.d[i][j]) IN Mk(A.r, A.c, F)
ZipM(G(_, _), A, B) == LET F(i, j) == G(A.d[i][j], B.d[i][j]) IN Mk(A.r, A.c, F)
AddM(A, B) == ZipM(RAdd, A, B)
SubM(A, B) == ZipM(RSub, A, B)
ScaleM(k, A) == LET G(x) == RMul(k, x) IN MapM(G, A)
Identity(n) == LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mk(n, n, F)
FullM(r, c, x) == LET F(i, j) == x IN Mk(r, c, F)
Kronecker(A, B) == LET F(i, j) == RMul(A.d[((i - 1) \div B.r) + 1][((j - 1) \div B.c) + 1], B.d[((i - 1) % B.r) + 1][((j - 1) % B.c) + 1])
                   IN Mk(A.r * B.r, A.c * B.c, F)
MulVec(A, v) == [i \in 1..A.r |-> RDot(A.d[i], v)]
(* A' v *)
TMulVec(A, v) == [j \in 1..A.c |-> RDot(Col(A, j), v)]
OuterM(a, b) == LET F(i, j) == RMul(a[i], b[j]) IN Mk(Len(a), Len(b), F)
AddRowVec(A, v) == LET F(i, j) == RAdd(A.d[i][j], v[j]) IN Mk(A.r, A.c, F)
Trace(A) == RSum([i \in 1..(IF A.r < A.c THEN A.r ELSE A.c) |-> A.d[i][i]])
(* delete row i and column j (1-based) *)
Minor(A, i, j) == LET F(p, q) == A.d[IF p < i THEN p ELSE p + 1][IF q < j THEN q ELSE q + 1] IN Mk(A.r - 1, A.c - 1, F)
RECURSIVE Det(_)
Det(A) == IF A.r = 1 THEN A.d[1][1]
          ELSE IF A.r = 2 THEN RSub(RMul(A.d[1][1], A.d[2][2]), RMul(A.d[1][2], A.d[2][1]))
          ELSE RSum([j \in 1..A.c |-> RMul(IF j % 2 = 1 THEN A.d[1][j] ELSE RNeg(A.d[1][j]), Det(Minor(A, 1, j)))])
Adjugate(A) == IF A.r = 1 THEN Identity(1)
               ELSE LET F(i, j) == LET m == Det(Minor(A, j, i)) IN IF (i + j) % 2 = 0 THEN m ELSE RNeg(m) IN Mk(A.r, A.c, F)
InverseM(A) == LET k == RInv(Det(A)) IN ScaleM(k, Adjugate(A))
PInverse(A) == LET At_ == Transpose(A) IN Mult(InverseM(Mult(At_, A)), At_)
RECURSIVE PowerN(_, _)
PowerN(A, n) == IF n = 0 THEN Identity(A.r) ELSE Mult(PowerN(A, n - 1), A)
Power(A, n) == IF n >= 0 THEN PowerN(A, n) ELSE PowerN(InverseM(A), -n)
Mean(v) == RDiv(RSum(v), Len(v))
CovV(x, y) == LET mx == Mean(x) my == Mean(y) IN
  RDiv(RSum([i \in 1..Len(x) |-> RMul(RSub(x[i], mx), RSub(y[i], my))]), Len(x) - 1)
CovM(A) == LET F(i, j) == CovV(A.d[i], A.d[j]) IN Mk(A.r, A.r, F)
Rotation(th, axis) ==
  LET c == RFun("cos", th) s == RFun("sin", th) n == RNeg(s) IN
  CASE axis = -1 -> [r |-> 2, c |-> 2, d |-> <<<<c, n>>, <<s, c>>>>]
    [] axis = 0 -> [r |-> 3, c |-> 3, d |-> <<<<1, 0, 0>>, <<0, c, n>>, <<0, s, c>>>>]
    [] axis = 1 -> [r |-> 3, c |-> 3, d |-> <<<<c, 0, s>>, <<0, 1, 0>>, <<n, 0, c>>>>]
    [] axis = 2 -> [r |-> 3, c |-> 3, d |-> <<<<c, n, 0>>, <<s, c, 0>>, <<0, 0, 1>>>>]
DiagSet(A, v) == LET F(i, j) == IF i = j /\ i <= Len(v) THEN v[i] ELSE A.d[i][j] IN Mk(A.r, A.c, F)
NormM(A) == RSqrt(RSum([i \in 1..A.r |-> RDot(A.d[i], A.d[i])]))
SumM(A) == RSum([i \in 1..A.r |-> RSum(A.d[i])])
=========================================================================
