------------------------------ MODULE TenOps ------------------------------
(* MLPPTensor3: a function of (z, y, x).  A tensor is a record            *)
(* [x, y, z, d |-> z planes of y rows of x reals].  Indices in events    *)
(* are 0-based, in the order z, y, x as in the API.                      *)
EXTENDS MatOps

MkT(x, y, z, F(_, _, _)) == [x |-> x, y |-> y, z |-> z, d |-> [k \in 1..z |-> [j \in 1..y |-> [i \in 1..x |-> F(k, j, i)]]]]
NewT == [x |-> 0, y |-> 0, z |-> 0, d |-> <<>>]
FlatT(t) == FlattenS([k \in 1..t.z |-> FlattenS(t.d[k])])
SizeT(t) == t.x * t.y * t.z
SameSizeT(s, t) == s.x = t.x /\ s.y = t.y /\ s.z = t.z
(* the tensor of the given size whose elements in storage order are f *)
UnflatT(x, y, z, f) == LET F(k, j, i) == f[((k - 1) * y + (j - 1)) * x + i] IN MkT(x, y, z, F)
PlaneOf(x, y, f) == [j \in 1..y |-> [i \in 1..x |-> f[(j - 1) * x + i]]]
MapT(G(_), t) == LET F(k, j, i) == G(t.d[k][j][i]) IN MkT(t.x, t.y, t.z, F)
ZipT(G(_, _), s, t) == LET F(k, j, i) == G(s.d[k][j][i], t.d[k][j][i]) IN MkT(s.x, s.y, s.z, F)
FullT(x, y, z, v) == LET F(k, j, i) == v IN MkT(x, y, z, F)
InZ(t, k) == k >= 0 /\ k < t.z
InY(t, k) == k >= 0 /\ k < t.y
InX(t, k) == k >= 0 /\ k < t.x
SetT(t, k, j, i, v) == [t EXCEPT !.d = [@ EXCEPT ![k + 1] = [@ EXCEPT ![j + 1] = [@ EXCEPT ![i + 1] = v]]]]
PlaneM(t, k) == [r |-> t.y, c |-> t.x, d |-> t.d[k + 1]]
XSlice(t, i) == LET F(k, j) == t.d[k][j][i + 1] IN Mk(t.z, t.y, F)
YSlice(t, j) == LET F(k, i) == t.d[k][j + 1][i] IN Mk(t.z, t.x, F)
SetXSlice(t, i, m) == LET F(k, j, q) == IF q = i + 1 THEN m.d[k][j] ELSE t.d[k][j][q] IN MkT(t.x, t.y, t.z, F)
SetYSlice(t, j, m) == LET F(k, q, i) == IF q = j + 1 THEN m.d[k][i] ELSE t.d[k][q][i] IN MkT(t.x, t.y, t.z, F)
AddPlane(t, p) == [t EXCEPT !.z = @ + 1, !.d = Append(@, p)]
SetPlane(t, k, p) == [t EXCEPT !.d = [@ EXCEPT ![k + 1] = p]]
(* the matrix with these rows as the single plane of a tensor *)
OfMat(m) == [x |-> m.c, y |-> m.r, z |-> 1, d |-> <<m.d>>]
OfPlanes(ps) == IF ps = <<>> \/ Len(ps[1]) = 0 \/ Len(ps[1][1]) = 0 THEN NewT ELSE [x |-> Len(ps[1][1]), y |-> Len(ps[1]), z |-> Len(ps), d |-> ps]
RowsT(rows) == OfPlanes(IF rows = <<>> THEN <<>> ELSE <<rows>>)

TDo(st, e) ==
  LET a == e.a
      op == e.op
      t == st[a[1]]
  IN
  CASE op = "T.new" -> Out(Put(st, a[1], a[2]), "ok")
    [] op = "T.z_add" ->
         IF a[2] = "mat" THEN Out(IF Has(st, a[3]) /\ ~EmptyM(st[a[3]]) /\ st[a[3]].r = t.y /\ st[a[3]].c = t.x THEN Put(st, a[1], AddPlane(t, st[a[3]].d)) ELSE st, "ok")
         ELSE LET f == IF a[2] = "mlpp" THEN (IF Has(st, a[3]) THEN st[a[3]] ELSE <<>>) ELSE a[3] IN
              Out(IF Len(f) > 0 /\ Len(f) = t.x * t.y THEN Put(st, a[1], AddPlane(t, PlaneOf(t.x, t.y, f))) ELSE st, "ok")
    [] op = "T.z_remove" -> Out(IF InZ(t, a[2]) THEN Put(st, a[1], [t EXCEPT !.z = @ - 1, !.d = RemoveIdx(@, a[2])]) ELSE st, "ok")
    [] op = "T.z_remove_unordered" -> Out(IF InZ(t, a[2]) THEN Put(st, a[1], [t EXCEPT !.z = @ - 1, !.d = RemoveUnordered(@, a[2])]) ELSE st, "ok")
    [] op = "T.z_swap" -> Out(IF InZ(t, a[2]) /\ InZ(t, a[3]) THEN Put(st, a[1], [t EXCEPT !.d = [@ EXCEPT ![a[2] + 1] = t.d[a[3] + 1], ![a[3] + 1] = t.d[a[2] + 1]]]) ELSE st, "ok")
    [] op \in {"T.clear", "T.reset"} -> Out(Put(st, a[1], NewT), "ok")
    [] op = "T.resize_fill" -> Out(Put(st, a[1], FullT(a[2], a[3], a[4], a[5])), "ok")
    [] op = "T.resize_z" -> LET F(k, j, i) == IF k <= t.z THEN t.d[k][j][i] ELSE a[3] IN Out(Put(st, a[1], MkT(t.x, t.y, a[2], F)), "ok")
    [] op = "T.shape" -> Out(IF a[2] * a[3] * a[4] = SizeT(t) THEN Put(st, a[1], UnflatT(a[2], a[3], a[4], FlatT(t))) ELSE st, "ok")
    [] op = "T.fill" -> Out(Put(st, a[1], FullT(t.x, t.y, t.z, a[2])), "ok")
    [] op = "T.get" -> Out(st, IF InZ(t, a[2]) /\ InY(t, a[3]) /\ InX(t, a[4]) THEN t.d[a[2] + 1][a[3] + 1][a[4] + 1] ELSE 0)
    [] op \in {"T.set", "T.setref"} -> Out(IF InZ(t, a[2]) /\ InY(t, a[3]) /\ InX(t, a[4]) THEN Put(st, a[1], SetT(t, a[2], a[3], a[4], a[5])) ELSE st, "ok")
    [] op = "T.get_index" -> Out(st, IF a[2] >= 0 /\ a[2] < SizeT(t) THEN FlatT(t)[a[2] + 1] ELSE 0)
    [] op = "T.set_index" -> Out(IF a[2] >= 0 /\ a[2] < SizeT(t) THEN Put(st, a[1], UnflatT(t.x, t.y, t.z, SetAt(FlatT(t), a[2], a[3]))) ELSE st, "ok")
    [] op = "T.getref" -> LET v == t.d[a[2] + 1][a[3] + 1][a[4] + 1] IN Out(st, <<(a[2] * t.y + a[3]) * t.x + a[4], a[2] * t.y * t.x, v, v, v>>)
    [] op = "T.row_get" -> Out(st, IF InZ(t, a[3]) /\ InY(t, a[4]) THEN t.d[a[3] + 1][a[4] + 1] ELSE IF a[2] = "mlpp" THEN "null" ELSE <<>>)
    [] op = "T.row_get_into" -> Out(IF Has(st, a[4]) /\ InZ(t, a[2]) /\ InY(t, a[3]) THEN Put(st, a[4], t.d[a[2] + 1][a[3] + 1]) ELSE st, "ok")
    [] op = "T.row_set" -> LET has == a[2] # "mlpp" \/ Has(st, a[5])
                               row == IF a[2] = "mlpp" THEN (IF has THEN st[a[5]] ELSE <<>>) ELSE a[5] IN
         Out(IF has /\ InZ(t, a[3]) /\ InY(t, a[4]) /\ Len(row) = t.x THEN Put(st, a[1], [t EXCEPT !.d = [@ EXCEPT ![a[3] + 1] = [@ EXCEPT ![a[4] + 1] = row]]]) ELSE st, "ok")
    [] op = "T.z_get" -> Out(st, IF ~InZ(t, a[3]) THEN (IF a[2] \in {"mlpp", "mat"} THEN "null" ELSE <<>>)
                                 ELSE IF a[2] = "mat" THEN (IF t.x * t.y = 0 THEN NewM ELSE PlaneM(t, a[3]))
                                 ELSE FlattenS(t.d[a[3] + 1]))
    [] op = "T.z_get_into" -> Out(IF InZ(t, a[3]) THEN Put(st, a[4], IF a[2] = "mlpp" THEN FlattenS(t.d[a[3] + 1]) ELSE PlaneM(t, a[3])) ELSE st, "ok")
    [] op = "T.z_set" ->
         IF a[2] = "mat" THEN Out(IF InZ(t, a[3]) /\ Has(st, a[4]) /\ st[a[4]].r = t.y /\ st[a[4]].c = t.x THEN Put(st, a[1], SetPlane(t, a[3], st[a[4]].d)) ELSE st, "ok")
         ELSE LET has == a[2] # "mlpp" \/ Has(st, a[4])
                  f == IF a[2] = "mlpp" THEN (IF has THEN st[a[4]] ELSE <<>>) ELSE a[4] IN
              Out(IF has /\ InZ(t, a[3]) /\ Len(f) = t.x * t.y THEN Put(st, a[1], SetPlane(t, a[3], PlaneOf(t.x, t.y, f))) ELSE st, "ok")
    [] op = "T.x_get" -> Out(st, IF InX(t, a[2]) THEN XSlice(t, a[2]) ELSE "null")
    [] op = "T.y_get" -> Out(st, IF InY(t, a[2]) THEN YSlice(t, a[2]) ELSE "null")
    [] op = "T.x_get_into" -> Out(IF InX(t, a[2]) /\ Has(st, a[3]) THEN Put(st, a[3], XSlice(t, a[2])) ELSE st, "ok")
    [] op = "T.y_get_into" -> Out(IF InY(t, a[2]) /\ Has(st, a[3]) THEN Put(st, a[3], YSlice(t, a[2])) ELSE st, "ok")
    [] op = "T.x_set" -> Out(IF InX(t, a[2]) /\ Has(st, a[3]) /\ st[a[3]].r = t.z /\ st[a[3]].c = t.y THEN Put(st, a[1], SetXSlice(t, a[2], st[a[3]])) ELSE st, "ok")
    [] op = "T.y_set" -> Out(IF InY(t, a[2]) /\ Has(st, a[3]) /\ st[a[3]].r = t.z /\ st[a[3]].c = t.x THEN Put(st, a[1], SetYSlice(t, a[2], st[a[3]])) ELSE st, "ok")
    [] op = "T.flat" -> Out(st, FlatT(t))
    [] op = "T.duplicate" -> Out(Put(st, a[1], st[a[2]]), "ok")
    [] op \in {"T.ctor", "T.set_from"} ->
         IF a[2] = "data_bad" \/ (a[2] = "tensor" /\ ~Has(st, a[3])) \/ (a[2] = "mat" /\ ~Has(st, a[3])) THEN Out(st, "ok")
         ELSE Out(Put(st, a[1], CASE a[2] \in {"stds", "data"} -> OfPlanes(a[3])
                                  [] a[2] \in {"mat", "matr"} -> OfMat(st[a[3]])
                                  [] a[2] \in {"tensor", "tensorr"} -> st[a[3]]
                                  [] a[2] \in {"mats", "matarray"} -> OfPlanes([i \in 1..Len(a[3]) |-> st[a[3][i]].d])
                                  [] a[2] \in {"vecs", "vecarray"} -> RowsT([i \in 1..Len(a[3]) |-> st[a[3][i]]])), "ok")
    [] op = "T.query" -> Out(st, <<t.x, t.y, t.z, SizeT(t), t.x * t.y, t.x, t.y, t.x = 0 /\ t.y = 0 /\ t.z = 0>>)
    [] op = "T.is_equal" -> Out(st, /\ Has(st, a[2])
                                    /\ \/ a[1] = a[2]
                                       \/ /\ SameSizeT(t, st[a[2]])
                                          /\ \A k \in 1..t.z, j \in 1..t.y, i \in 1..t.x : ApproxEq(t.d[k][j][i], st[a[2]].d[k][j][i], a[3]))
    [] op = "T.bin" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4]
                           G(p, q) == BinF(a[1], p, q)
                           ok == Has(st, x) /\ Has(st, a[5]) /\ SameSizeT(st[x], st[a[5]]) IN
         IF ok THEN Out(Put(st, a[3], ZipT(G, st[x], st[a[5]])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "T.un" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] G(p) == UnF(a[1], p) IN
         IF Has(st, x) THEN Out(Put(st, a[3], MapT(G, st[x])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "T.sca" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] G(p) == ScaF(a[1], p, a[5]) IN
         IF Has(st, x) THEN Out(Put(st, a[3], MapT(G, st[x])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "T.flatten" -> Out(Put(st, a[2], FlatT(st[a[3]])), "ok")
    [] op = "T.vec_mult" -> LET q == st[a[2]] F(k, j) == RDot(q.d[k][j], st[a[3]]) IN Out(Put(st, a[1], Mk(q.z, q.y, F)), "ok")
=========================================================================
