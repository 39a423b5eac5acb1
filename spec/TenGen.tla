------------------------------ MODULE TenGen ------------------------------
(* Small-scope exploration of the MLPPTensor3 container API: a tensor of *)
(* at most Max in each direction, a matrix and a vector slot.            *)
EXTENDS LaSpec
CONSTANTS Max
C(op, a) == [op |-> op, a |-> a]
Tens == {LET F(k, j, i) == k * 100 + j * 10 + i IN MkT(x, y, z, F) : x \in 1..Max, y \in 1..Max, z \in 1..Max}
Mats == {LET F(i, j) == -(i * 10 + j) IN Mk(r, c, F) : r \in 1..Max, c \in 1..Max}
Num(n) == [i \in 1..n |-> 500 + i]
Ix == -1..Max
TenCmds(st, t, m, v) ==
  LET T_ == st[t] n == T_.x * T_.y IN
  (IF T_.z < Max THEN {C("T.z_add", <<t, k, Num(q)>>) : k \in {"vector", "pool"}, q \in {0, 1, n}} \cup {C("T.z_add", <<t, "mat", m>>), C("T.z_add", <<t, "mlpp", v>>)} ELSE {})
  \cup {C("T.z_add", <<t, "mat", "null">>)}
  \cup {C(o, <<t, y>>) : o \in {"T.z_remove", "T.z_remove_unordered", "T.x_get", "T.y_get"}, y \in Ix}
  \cup {C("T.z_swap", <<t, y, z>>) : y \in Ix, z \in Ix}
  \cup {C(o, <<t>>) : o \in {"T.clear", "T.reset", "T.query"}}
  \cup {C("T.get", <<t, z, y, x>>) : z \in Ix, y \in Ix, x \in Ix}
  \cup {C("T.set", <<t, z, y, x, 7>>) : z \in Ix, y \in Ix, x \in Ix}
  \cup {C("T.getref", <<t, z, y, x>>) : z \in 0..(T_.z - 1), y \in 0..(T_.y - 1), x \in 0..(T_.x - 1)}
  \cup {C("T.setref", <<t, z, y, x, 8>>) : z \in 0..(T_.z - 1), y \in 0..(T_.y - 1), x \in 0..(T_.x - 1)}
  \cup {C("T.get_index", <<t, y>>) : y \in -1..SizeT(T_)}
  \cup {C("T.set_index", <<t, y, 9>>) : y \in -1..SizeT(T_)}
  \cup {C("T.row_get", <<t, k, z, y>>) : k \in {"vector", "pool", "mlpp"}, z \in Ix, y \in Ix}
  \cup {C("T.row_get_into", <<t, z, y, v>>) : z \in Ix, y \in Ix}
  \cup {C("T.row_set", <<t, k, z, y, Num(q)>>) : k \in {"vector", "pool"}, z \in Ix, y \in Ix, q \in {T_.x, T_.x + 1}}
  \cup {C("T.row_set", <<t, "mlpp", z, y, v>>) : z \in Ix, y \in Ix}
  \cup {C("T.z_get", <<t, k, z>>) : k \in {"vector", "pool", "mlpp", "mat"}, z \in Ix}
  \cup {C("T.z_get_into", <<t, "mlpp", z, v>>) : z \in Ix}
  \cup {C("T.z_get_into", <<t, "mat", z, m>>) : z \in Ix}
  \cup {C("T.z_set", <<t, k, z, Num(q)>>) : k \in {"vector", "pool"}, z \in Ix, q \in {n, n + 1}}
  \cup {C("T.z_set", <<t, "mat", z, m>>) : z \in Ix} \cup {C("T.z_set", <<t, "mlpp", z, v>>) : z \in Ix}
  \cup (IF n > 0 THEN {C(o, <<t, y, m>>) : o \in {"T.x_get_into", "T.y_get_into", "T.x_set", "T.y_set"}, y \in Ix} ELSE {})
  \cup (IF n > 0 THEN {C("T.resize_z", <<t, z, 6>>) : z \in 1..Max} ELSE {})
  \cup (IF SizeT(T_) > 0 THEN {C("T.shape", <<t, p[1], p[2], p[3]>>) : p \in {<<T_.y, T_.z, T_.x>>, <<T_.x, T_.z, T_.y>>, <<T_.x, T_.y, T_.z + 1>>}} ELSE {})
  \cup {C("T.resize_fill", <<t, x, y, z, 5>>) : x \in 1..Max, y \in 1..Max, z \in {1, Max}}
  \cup {C("T.fill", <<t, 4>>)}
  \cup {C("T.flat", <<t, k>>) : k \in {"vector", "pool", "bytes", "std", "data", "std3"}}
  \cup {C("T.duplicate", <<"t2", t>>), C("T.is_equal", <<t, t, "0.5">>), C("T.is_equal", <<t, "null", "0.5">>)}
  \cup {C("T.set_from", <<t, k, m>>) : k \in {"mat", "matr"}}
  \cup {C("T.set_from", <<t, k, <<m, m>>>>) : k \in {"mats", "matarray"}}
  \cup {C("T.ctor", <<"t2", "mat", m>>), C("T.ctor", <<"t2", "mats", <<m, m>>>>)}
Cmds(st) == IF st = InitState THEN {C("M.new", <<"m", x>>) : x \in Mats}
            ELSE IF ~Has(st, "v") THEN {C("V.new", <<"v", Num(q)>>) : q \in {0, 1, Max}}
            ELSE IF ~Has(st, "t1") THEN {C("T.new", <<"t1", x>>) : x \in Tens}
            ELSE IF Has(st, "t2") THEN {C("T.is_equal", <<"t1", "t2", "0.5">>), C("T.fill", <<"t2", 3>>)}
            ELSE TenCmds(st, "t1", "m", "v")

WFT(t) == Len(t.d) = t.z /\ \A k \in 1..t.z : Len(t.d[k]) = t.y /\ \A j \in 1..t.y : Len(t.d[k][j]) = t.x
(* the three slicings and the storage order describe the same cells *)
Coherent(t) ==
  /\ WFT(t)
  /\ UnflatT(t.x, t.y, t.z, FlatT(t)) = t
  /\ \A k \in 1..t.z, j \in 1..t.y, i \in 1..t.x :
       /\ XSlice(t, i - 1).d[k][j] = t.d[k][j][i]
       /\ YSlice(t, j - 1).d[k][i] = t.d[k][j][i]
       /\ PlaneM(t, k - 1).d[j][i] = t.d[k][j][i]
       /\ SetXSlice(t, i - 1, XSlice(t, i - 1)) = t
       /\ SetYSlice(t, j - 1, YSlice(t, j - 1)) = t
StateOK(st) == \A k \in DOMAIN st \cap {"t1", "t2"} : Coherent(st[k])
StepOK(st, e, o) == \A k \in DOMAIN st : (k # e.a[1] /\ e.op \notin {"T.row_get_into", "T.z_get_into", "T.x_get_into", "T.y_get_into"}) => o.s[k] = st[k]
=========================================================================
