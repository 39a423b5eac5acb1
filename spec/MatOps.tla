------------------------------ MODULE MatOps ------------------------------
(* MLPPMatrix: the meaning of every public call on a heap of matrices    *)
(* and vectors.  Indices in events are 0-based as in the API.            *)
EXTENDS VecOps, Mat

InRow(A, y) == y >= 0 /\ y < A.r
InCol(A, x) == x >= 0 /\ x < A.c
FlatAt(A, i) == A.d[(i \div A.c) + 1][(i % A.c) + 1]
SetCell(A, y, x, v) == [A EXCEPT !.d = [@ EXCEPT ![y + 1] = [@ EXCEPT ![x + 1] = v]]]
RowAdd(A, row) == IF Len(row) = 0 THEN A
                  ELSE IF A.c = 0 THEN [r |-> 1, c |-> Len(row), d |-> <<row>>]
                  ELSE IF A.c # Len(row) THEN A
                  ELSE [A EXCEPT !.r = @ + 1, !.d = Append(@, row)]
RowsAdd(A, B) == IF EmptyM(B) THEN A
                 ELSE IF A.c = 0 THEN B
                 ELSE IF A.c # B.c THEN A
                 ELSE [A EXCEPT !.r = @ + B.r, !.d = @ \o B.d]
RowRemove(A, i) == IF InRow(A, i) THEN [A EXCEPT !.r = @ - 1, !.d = RemoveIdx(@, i)] ELSE A
RowRemoveU(A, i) == IF InRow(A, i) THEN [A EXCEPT !.r = @ - 1, !.d = RemoveUnordered(@, i)] ELSE A
RowSwap(A, i, j) == IF InRow(A, i) /\ InRow(A, j) THEN [A EXCEPT !.d = [@ EXCEPT ![i + 1] = A.d[j + 1], ![j + 1] = A.d[i + 1]]] ELSE A
RowSet(A, y, row) == IF InRow(A, y) /\ Len(row) = A.c THEN [A EXCEPT !.d = SetAt(@, y, row)] ELSE A
ResizeRows(A, r, x) == [A EXCEPT !.r = r, !.d = Resized(@, r, Full(A.c, x))]

BinOk(op, A, B) == CASE op = "mult" -> A.c = B.r
                     [] op = "kronecker_product" -> TRUE
                     [] OTHER -> SameSize(A, B)
BinM(op, A, B) == CASE op = "mult" -> Mult(A, B)
                    [] op = "kronecker_product" -> Kronecker(A, B)
                    [] OTHER -> LET G(x, y) == BinF(op, x, y) IN ZipM(G, A, B)
UnM(op, A) == IF op = "transpose" THEN Transpose(A) ELSE LET G(x) == UnF(op, x) IN MapM(G, A)

MDo(st, e) ==
  LET a == e.a
      op == e.op
  IN
  CASE op = "M.new" -> Out(Put(st, a[1], a[2]), "ok")
    [] op = "M.row_add" -> LET has == a[2] # "mlpp" \/ Has(st, a[3])
                               row == IF a[2] = "mlpp" THEN (IF has THEN st[a[3]] ELSE <<>>) ELSE a[3] IN
         Out(IF has THEN [st EXCEPT ![a[1]] = RowAdd(@, row)] ELSE st, "ok")
    [] op = "M.rows_add" -> Out(IF Has(st, a[2]) THEN [st EXCEPT ![a[1]] = RowsAdd(@, st[a[2]])] ELSE st, "ok")
    [] op = "M.row_remove" -> Out([st EXCEPT ![a[1]] = RowRemove(@, a[2])], "ok")
    [] op = "M.row_remove_unordered" -> Out([st EXCEPT ![a[1]] = RowRemoveU(@, a[2])], "ok")
    [] op = "M.row_swap" -> Out([st EXCEPT ![a[1]] = RowSwap(@, a[2], a[3])], "ok")
    [] op \in {"M.clear", "M.reset"} -> Out([st EXCEPT ![a[1]] = NewM], "ok")
    [] op = "M.resize_fill" -> Out([st EXCEPT ![a[1]] = FullM(a[2], a[3], a[4])], "ok")
    [] op = "M.resize_rows" -> Out([st EXCEPT ![a[1]] = ResizeRows(@, a[2], a[3])], "ok")
    [] op = "M.get" -> Out(st, IF InRow(st[a[1]], a[2]) /\ InCol(st[a[1]], a[3]) THEN st[a[1]].d[a[2] + 1][a[3] + 1] ELSE 0)
    [] op \in {"M.set", "M.setref"} -> Out(IF InRow(st[a[1]], a[2]) /\ InCol(st[a[1]], a[3]) THEN [st EXCEPT ![a[1]] = SetCell(@, a[2], a[3], a[4])] ELSE st, "ok")
    [] op = "M.get_index" -> Out(st, IF a[2] >= 0 /\ a[2] < st[a[1]].r * st[a[1]].c THEN FlatAt(st[a[1]], a[2]) ELSE 0)
    [] op = "M.set_index" -> LET A == st[a[1]] IN
         Out(IF a[2] >= 0 /\ a[2] < A.r * A.c THEN [st EXCEPT ![a[1]] = SetCell(A, a[2] \div A.c, a[2] % A.c, a[3])] ELSE st, "ok")
    [] op = "M.getref" -> LET A == st[a[1]] x == A.d[a[2] + 1][a[3] + 1] IN Out(st, <<a[2] * A.c + a[3], x, x>>)
    [] op = "M.row_get" -> Out(st, IF InRow(st[a[1]], a[3]) THEN st[a[1]].d[a[3] + 1] ELSE IF a[2] = "mlpp" THEN "null" ELSE <<>>)
    [] op = "M.row_get_into" -> Out(IF Has(st, a[3]) /\ InRow(st[a[1]], a[2]) THEN [st EXCEPT ![a[3]] = st[a[1]].d[a[2] + 1]] ELSE st, "ok")
    [] op = "M.row_set" -> LET has == a[2] # "mlpp" \/ Has(st, a[4])
                               row == IF a[2] = "mlpp" THEN (IF has THEN st[a[4]] ELSE <<>>) ELSE a[4] IN
         Out(IF has THEN [st EXCEPT ![a[1]] = RowSet(@, a[3], row)] ELSE st, "ok")
    [] op = "M.fill" -> Out([st EXCEPT ![a[1]] = FullM(@.r, @.c, a[2])], "ok")
    [] op = "M.flat" -> Out(st, FlatM(st[a[1]]))
    [] op \in {"M.duplicate", "M.copy_ctor"} -> Out(Put(st, a[1], st[a[2]]), "ok")
    [] op = "M.ctor" -> Out(Put(st, a[1], OfRows(a[3])), "ok")
    [] op = "M.set_from" -> Out([st EXCEPT ![a[1]] = OfRows(IF a[2] \in {"rows", "rowarray"} THEN [i \in 1..Len(a[3]) |-> st[a[3][i]]] ELSE a[3])], "ok")
    [] op = "M.set_data_bad" -> Out(st, "ok")
    [] op \in {"M.set_from_mat", "M.set_from_matr"} -> Out(IF Has(st, a[2]) THEN [st EXCEPT ![a[1]] = st[a[2]]] ELSE st, "ok")
    [] op = "M.query" -> LET A == st[a[1]] IN Out(st, <<A.r, A.c, EmptyM(A), A.r * A.c>>)
    [] op = "M.is_equal" -> Out(st, /\ Has(st, a[2])
                                    /\ \/ a[1] = a[2]
                                       \/ /\ SameSize(st[a[1]], st[a[2]])
                                          /\ \A i \in 1..st[a[1]].r, j \in 1..st[a[1]].c : ApproxEq(st[a[1]].d[i][j], st[a[2]].d[i][j], a[3]))
    \* algebra
    [] op = "M.bin" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4]
                           ok == Has(st, x) /\ Has(st, a[5]) /\ BinOk(a[1], st[x], st[a[5]]) IN
         IF ok THEN Out(Put(st, a[3], BinM(a[1], st[x], st[a[5]])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "M.un" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] IN
         IF Has(st, x) THEN Out(Put(st, a[3], UnM(a[1], st[x])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "M.sca" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4]
                           G(y) == ScaF(a[1], y, a[5]) IN
         IF Has(st, x) THEN Out(Put(st, a[3], MapM(G, st[x])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "M.addvec" -> LET x == IF a[1] = "i" THEN a[2] ELSE a[3]
                              ok == Has(st, x) /\ Has(st, a[4]) /\ st[x].c = Len(st[a[4]]) IN
         IF ok THEN Out(Put(st, a[2], AddRowVec(st[x], st[a[4]])), "ok") ELSE Form(st, a[1], a[2], FALSE, 0)
    [] op = "M.multvec" -> LET ok == Has(st, a[4]) /\ st[a[3]].c = Len(st[a[4]]) IN
         IF ok THEN Out(Put(st, a[2], MulVec(st[a[3]], st[a[4]])), "ok") ELSE Form(st, a[1], a[2], FALSE, 0)
    [] op = "M.outer" -> LET ok == Has(st, a[3]) /\ Has(st, a[4]) IN
         IF ok THEN Out(Put(st, a[2], OuterM(st[a[3]], st[a[4]])), "ok") ELSE Form(st, a[1], a[2], FALSE, 0)
    [] op = "M.diag" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4]
                            A == IF a[1] = "set" THEN st[x] ELSE FullM(st[x].r, st[x].c, 0) IN
         Out(Put(st, a[3], DiagSet(A, st[a[5]])), "ok")
    [] op = "M.identity" -> LET A == st[IF a[1] = "i" THEN a[2] ELSE a[3]]
                                F(i, j) == IF i = j THEN 1 ELSE 0 IN
         Out(Put(st, a[2], Mk(A.r, A.c, F)), "ok")
    [] op = "M.const" -> Out(Put(st, a[1], CASE a[2] = "zero" -> FullM(a[4], a[5], 0)
                                             [] a[2] = "one" -> FullM(a[4], a[5], 1)
                                             [] a[2] = "full" -> FullM(a[4], a[5], a[6])
                                             [] OTHER -> Identity(a[4])), "ok")
    [] op = "M.noise" -> Out(st, IF a[2] = "fill" THEN <<st[a[3]].r, st[a[3]].c, TRUE>> ELSE <<a[4], a[5], TRUE>>)
    [] op = "M.flatten" -> Out(Put(st, a[2], FlatM(st[a[3]])), "ok")
    [] op = "M.trace" -> Out(st, Trace(st[a[1]]))
    [] op = "M.det" -> LET A == st[a[2]] n == IF a[1] = "self" THEN A.r ELSE a[3]
                           F(i, j) == A.d[i][j] IN Out(st, Det(Mk(n, n, F)))
    [] op = "M.cofactor" -> LET A == st[a[2]] n == a[3] F(i, j) == A.d[i][j] IN Out(st, Minor(Mk(n, n, F), a[4] + 1, a[5] + 1).d)
    [] op \in {"M.adjoint", "M.inverse"} -> LET A == st[a[3]] IN
         IF A.r # A.c THEN Form(st, a[1], a[2], FALSE, 0)
         ELSE Out(Put(st, a[2], IF op = "M.adjoint" THEN Adjugate(A) ELSE InverseM(A)), "ok")
    [] op = "M.pinverse" -> Out(Put(st, a[2], PInverse(st[a[3]])), "ok")
    [] op = "M.power" -> Out(Put(st, a[1], Power(st[a[2]], a[3])), "ok")
    [] op = "M.solve" -> Out(Put(st, a[1], MulVec(InverseM(st[a[2]]), st[a[3]])), "ok")
    [] op = "M.cov" -> Out(Put(st, a[2], CovM(st[a[3]])), "ok")
    [] op = "M.rotmat" -> Out(Put(st, a[1], Rotation(a[3], a[4])), "ok")
    [] op = "M.rotate" -> LET A == st[IF a[1] = "i" THEN a[2] ELSE a[3]] R_ == Rotation(a[4], a[5]) IN
         IF A.c = R_.r THEN Out(Put(st, a[2], Mult(A, R_)), "ok") ELSE Form(st, a[1], a[2], FALSE, 0)
    [] OTHER -> VDo(st, e)
=========================================================================
