------------------------------ MODULE LinOps ------------------------------
(* The MLPPLinAlg facade: event L <<function, destination, arguments>>.  *)
EXTENDS TenOps

LUn == [lognm |-> "log", log10nm |-> "log10", expnm |-> "exp", erfnm |-> "erf", sqrtnm |-> "sqrt", cbrtnm |-> "cbrt", absnm |-> "abs",
        sinnm |-> "sin", cosnm |-> "cos", transposenm |-> "transpose"]
LUnV == [lognv |-> "log", log10nv |-> "log10", expnv |-> "exp", erfnv |-> "erf", sqrtnv |-> "sqrt", cbrtnv |-> "cbrt", absv |-> "abs",
         sinnv |-> "sin", cosnv |-> "cos"]
LBin == [additionnm |-> "add", subtractionnm |-> "sub", matmultnm |-> "mult", hadamard_productnm |-> "hadamard_product",
         kronecker_productnm |-> "kronecker_product", division_element_wisenvnm |-> "division_element_wise", maxnm |-> "max"]
LBinV == [additionnv |-> "add", subtractionnv |-> "sub", hadamard_productnv |-> "hadamard_product", division_element_wisenv |-> "division_element_wise",
          maxnvv |-> "max", additionv |-> "add", subtractionv |-> "sub", hadamard_productv |-> "hadamard_product"]
LSca == [scalar_multiplynm |-> "scalar_multiply", scalar_addnm |-> "scalar_add", exponentiatenm |-> "exponentiate"]
LScaV == [scalar_multiplynv |-> "scalar_multiply", scalar_addnv |-> "scalar_add", exponentiatenv |-> "exponentiate",
          scalar_multiplyv |-> "scalar_multiply", scalar_addv |-> "scalar_add"]
LOut == {"additionv", "subtractionv", "hadamard_productv", "scalar_multiplyv", "scalar_addv"}
LRed == [maxvr |-> "max_element", minvr |-> "min_element", norm_sqv |-> "norm_sq", sum_elementsv |-> "sum_elements"]
LRed2 == [dotnv |-> "dot", euclidean_distance |-> "euclidean_distance", euclidean_distance_squared |-> "euclidean_distance_squared"]
LTenBin == [additionnvt |-> "add", division_element_wisenvnvt |-> "division_element_wise", maxnvt |-> "max"]
LTenUn == [sqrtnvt |-> "sqrt", absnvt |-> "abs"]
LTenSca == [scalar_multiplynvt |-> "scalar_multiply", scalar_addnvt |-> "scalar_add", exponentiatenvt |-> "exponentiate"]

RECURSIVE PutAll(_, _, _)
PutAll(st, ks, vs) == IF ks = <<>> THEN st ELSE PutAll(Put(st, Head(ks), Head(vs)), Tail(ks), Tail(vs))
Lead(A, n) == LET F(i, j) == A.d[i][j] IN Mk(n, n, F)
(* the projection of b on the direction of a *)
Projection(a, b) == ScaV("scalar_multiply", a, RDiv(RDot(a, b), RDot(a, a)))
ScaM(op, A, k) == LET G(y) == ScaF(op, y, k) IN MapM(G, A)

(* Factorisations are characterised, not computed: any Q, R (L, L') with *)
(* these properties is accepted.                                        *)
Orthonormal(Q) == SameTol(Mult(Transpose(Q), Q), Identity(Q.c), "1e-6", "1e-6")
Upper(R_) == \A i \in 1..R_.r, j \in 1..R_.c : j < i => SameTol(R_.d[i][j], 0, "1e-6", "1e-6")
Lower(R_) == Upper(Transpose(R_))
Relational == {"gram_schmidt_process", "qrd", "cholesky"}
RelOk(st, e) ==
  LET A == st[e.a[3]] d == e.a[2] IN
  CASE e.a[1] = "qrd" ->
         /\ e.r = "ok"
         /\ LET Q == e.s[d[1]] R_ == e.s[d[2]] IN
              /\ Same(e.s, Put(Put(st, d[1], Q), d[2], R_))
              /\ Q.r = A.r /\ Q.c = A.c /\ R_.r = A.c /\ R_.c = A.c
              /\ Orthonormal(Q) /\ Upper(R_) /\ SameTol(Mult(Q, R_), A, "1e-6", "1e-6")
    [] e.a[1] = "gram_schmidt_process" ->
         /\ e.r = "ok"
         /\ LET Q == e.s[d] IN
              /\ Same(e.s, Put(st, d, Q))
              /\ Q.r = A.r /\ Q.c = A.c /\ Orthonormal(Q)
              \* each column of A is spanned by the columns of Q up to its own, in its own direction
              /\ Upper(Mult(Transpose(Q), A)) /\ SameTol(Mult(Q, Mult(Transpose(Q), A)), A, "1e-6", "1e-6")
              /\ \A j \in 1..A.c : RLt(0, RDot(Col(Q, j), Col(A, j)))
    [] e.a[1] = "cholesky" ->
         IF A.r # A.c THEN e.r = "null" /\ Same(e.s, st)
         ELSE /\ e.r = "ok"
              /\ LET L_ == e.s[d[1]] Lt_ == e.s[d[2]] IN
                   /\ Same(e.s, Put(Put(st, d[1], L_), d[2], Lt_))
                   /\ L_.r = A.r /\ L_.c = A.r /\ Lower(L_) /\ Same(Lt_, Transpose(L_)) /\ SameTol(Mult(L_, Lt_), A, "1e-6", "1e-6")

LDo(st, e) ==
  LET f == e.a[1] d == e.a[2] a == e.a
      N(ok, val) == IF ok THEN Out(Put(st, d, val), "ok") ELSE Out(st, "null")
      W(ok, val) == IF ok THEN Out(Put(st, d, val), "ok") ELSE Out(st, "ok")
      H(i) == Has(st, a[i])
  IN
  CASE f \in DOMAIN LUn -> N(H(3), UnM(LUn[f], st[a[3]]))
    [] f \in DOMAIN LUnV -> N(H(3), UnV(LUnV[f], st[a[3]]))
    [] f \in DOMAIN LBin -> N(H(3) /\ H(4) /\ BinOk(LBin[f], st[a[3]], st[a[4]]), BinM(LBin[f], st[a[3]], st[a[4]]))
    [] f \in DOMAIN LBinV -> LET ok == H(3) /\ H(4) /\ Len(st[a[3]]) = Len(st[a[4]]) IN
         \* a rejected maximum is an empty vector
         IF f = "maxnvv" /\ ~ok THEN Out(Put(st, d, <<>>), "ok")
         ELSE IF f \in LOut THEN W(ok, BinV(LBinV[f], st[a[3]], st[a[4]])) ELSE N(ok, BinV(LBinV[f], st[a[3]], st[a[4]]))
    [] f \in DOMAIN LSca -> N(H(3), ScaM(LSca[f], st[a[3]], a[4]))
    [] f \in DOMAIN LScaV -> IF f \in LOut THEN W(H(3), ScaV(LScaV[f], st[a[3]], a[4])) ELSE N(H(3), ScaV(LScaV[f], st[a[3]], a[4]))
    [] f \in DOMAIN LRed -> Out(st, IF H(3) THEN Red(LRed[f], st[a[3]]) ELSE 0)
    [] f \in DOMAIN LRed2 -> Out(st, IF H(3) /\ H(4) /\ Len(st[a[3]]) = Len(st[a[4]]) THEN Red2(LRed2[f], st[a[3]], st[a[4]]) ELSE 0)
    [] f = "gram_matrix" -> N(TRUE, Mult(Transpose(st[a[3]]), st[a[3]]))
    [] f = "linear_independence_checker" -> Out(st, ~REq(Det(Mult(Transpose(st[a[3]]), st[a[3]])), 0))
    [] f = "gaussian_noise" -> Out(st, <<a[3], a[4], TRUE>>)
    [] f = "detm" -> Out(st, Det(Lead(st[a[3]], a[4])))
    [] f = "cofactornm" -> Out(st, Minor(Lead(st[a[3]], a[4]), a[5] + 1, a[6] + 1).d)
    [] f \in {"adjointnm", "inversenm"} -> LET A == st[a[3]] IN N(A.r = A.c, IF f = "adjointnm" THEN Adjugate(A) ELSE InverseM(A))
    [] f = "pinversenm" -> N(TRUE, PInverse(st[a[3]]))
    [] f = "zeromatnm" -> N(TRUE, FullM(a[3], a[4], 0))
    [] f = "onematnm" -> N(TRUE, FullM(a[3], a[4], 1))
    [] f = "fullnm" -> N(TRUE, FullM(a[3], a[4], a[5]))
    [] f = "identitym" -> N(TRUE, Identity(a[3]))
    [] f = "covnm" -> N(TRUE, CovM(st[a[3]]))
    [] f = "flattenvvnv" -> N(TRUE, FlatM(st[a[3]]))
    [] f = "solve" -> N(TRUE, MulVec(InverseM(st[a[3]]), st[a[4]]))
    [] f = "flattenmnv" -> N(TRUE, FlattenS([i \in 1..Len(a[3]) |-> st[a[3][i]]]))
    [] f = "vector_projection" -> N(TRUE, Projection(st[a[3]], st[a[4]]))
    [] f = "zerovecnv" -> N(TRUE, Full(a[3], 0))
    [] f = "onevecnv" -> N(TRUE, Full(a[3], 1))
    [] f = "fullnv" -> N(TRUE, Full(a[3], a[4]))
    [] f = "mat_vec_multnv" -> N(st[a[3]].c = Len(st[a[4]]), MulVec(st[a[3]], st[a[4]]))
    [] f = "subtract_matrix_rowsnv" -> N(TRUE, IF st[a[4]].c = Len(st[a[3]]) THEN SubRows(st[a[3]], st[a[4]]) ELSE st[a[3]])
    [] f = "outer_product" -> N(H(3) /\ H(4), OuterM(st[a[3]], st[a[4]]))
    [] f = "mat_vec_addnm" -> N(H(3) /\ H(4) /\ st[a[3]].c = Len(st[a[4]]), AddRowVec(st[a[3]], st[a[4]]))
    [] f = "diagnm" -> LET x == st[a[3]] F(i, j) == IF i = j THEN x[i] ELSE 0 IN N(TRUE, Mk(Len(x), Len(x), F))
    [] f \in DOMAIN LTenBin -> Out(PutAll(st, d, [i \in 1..Len(a[3]) |-> BinM(LTenBin[f], st[a[3][i]], st[a[4][i]])]), [i \in 1..Len(a[3]) |-> "ok"])
    [] f \in DOMAIN LTenUn -> Out(PutAll(st, d, [i \in 1..Len(a[3]) |-> UnM(LTenUn[f], st[a[3][i]])]), [i \in 1..Len(a[3]) |-> "ok"])
    [] f \in DOMAIN LTenSca -> Out(PutAll(st, d, [i \in 1..Len(a[3]) |-> ScaM(LTenSca[f], st[a[3][i]], a[4])]), [i \in 1..Len(a[3]) |-> "ok"])
    [] f = "division_element_wisevt" -> Out(PutAll(st, a[3], [i \in 1..Len(a[3]) |-> BinM("division_element_wise", st[a[3][i]], st[a[4][i]])]), "ok")
    [] f \in {"resizencvt", "resizevt"} -> Out(st, [i \in 1..Len(a[3]) |-> <<st[a[3][i]].r, st[a[3][i]].c>>])
=========================================================================
