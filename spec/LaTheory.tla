---------------------------- MODULE LaTheory ----------------------------
(* Sanity of the matrix definitions themselves: algebraic laws checked   *)
(* by TLC on every pair of small matrices.                               *)
EXTENDS Mat
CONSTANTS Es, N
VARIABLES A, B
All(n) == {[r |-> n, c |-> n, d |-> f] : f \in [1..n -> [1..n -> Es]]}
Init == \E n \in 1..N : A \in All(n) /\ B \in All(n)
Next == UNCHANGED <<A, B>>
Laws ==
  LET n == A.r I == Identity(n) AB == Mult(A, B) IN
  /\ Transpose(AB) = Mult(Transpose(B), Transpose(A))
  /\ Mult(A, I) = A /\ Mult(I, A) = A
  /\ Det(AB) = RMul(Det(A), Det(B))
  /\ Det(Transpose(A)) = Det(A)
  /\ Mult(A, Adjugate(A)) = ScaleM(Det(A), I)
  /\ Trace(AddM(A, B)) = RAdd(Trace(A), Trace(B))
  /\ Trace(AB) = Trace(Mult(B, A))
  /\ Mult(AddM(A, B), A) = AddM(Mult(A, A), Mult(B, A))
  /\ Power(A, 2) = Mult(A, A)
  /\ Kronecker(I, I) = Identity(n * n)
  /\ Trace(Kronecker(A, B)) = RMul(Trace(A), Trace(B))
  /\ Transpose(Kronecker(A, B)) = Kronecker(Transpose(A), Transpose(B))
  /\ (Det(A) # 0 => Same(Mult(A, InverseM(A)), I))
=========================================================================
