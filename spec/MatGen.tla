------------------------------ MODULE MatGen ------------------------------
(* Small-scope exploration of the MLPPMatrix container API: all heaps of *)
(* two matrices up to MaxR x MaxC over Vals and one vector.              *)
EXTENDS LaSpec
CONSTANTS Vals, MaxR, MaxC
C(op, a) == [op |-> op, a |-> a]
Rows(w) == [1..w -> Vals]
AllRows == UNION {Rows(w) : w \in 0..MaxC}
Fits(st, m, k) == st[m].r + k <= MaxR
Mats == {NewM} \cup {[r |-> r, c |-> c, d |-> [i \in 1..r |-> [j \in 1..c |-> ((i + j) % 2) + 1]]] : r \in 1..MaxR, c \in 1..MaxC}
MatCmds(st, m, w, v) ==
  LET n == st[m].r  c == st[m].c  ys == -1..(MaxR) xs == -1..(MaxC) IN
  (IF n < MaxR THEN {C("M.row_add", <<m, k, x>>) : k \in {"vector", "pool"}, x \in AllRows} \cup {C("M.row_add", <<m, "mlpp", v>>)} ELSE {})
  \cup (IF Fits(st, m, st[w].r) THEN {C("M.rows_add", <<m, w>>)} ELSE {})
  \cup (IF 2 * n <= MaxR THEN {C("M.rows_add", <<m, m>>)} ELSE {})
  \cup {C("M.rows_add", <<m, "null">>), C("M.row_add", <<m, "mlpp", "null">>), C("M.set_from_mat", <<m, "null">>)}
  \cup {C(o, <<m, y>>) : o \in {"M.row_remove", "M.row_remove_unordered"}, y \in ys}
  \cup {C("M.row_swap", <<m, y, z>>) : y \in ys, z \in ys}
  \cup {C(o, <<m>>) : o \in {"M.clear", "M.reset", "M.query"}}
  \cup {C("M.get", <<m, y, x>>) : y \in ys, x \in xs}
  \cup {C("M.set", <<m, y, x, u>>) : y \in ys, x \in xs, u \in Vals}
  \cup {C("M.getref", <<m, y, x>>) : y \in 0..(n - 1), x \in 0..(c - 1)}
  \cup {C("M.get_index", <<m, y>>) : y \in -1..(MaxR * MaxC)}
  \cup {C("M.set_index", <<m, y, u>>) : y \in -1..(MaxR * MaxC), u \in Vals}
  \cup {C("M.row_get", <<m, k, y>>) : k \in {"vector", "pool", "mlpp"}, y \in ys}
  \cup {C("M.row_get_into", <<m, y, v>>) : y \in ys}
  \cup {C("M.row_set", <<m, k, y, x>>) : k \in {"vector", "pool", "std"}, y \in ys, x \in {Full(q, u) : q \in 1..MaxC, u \in Vals}}
  \cup {C("M.row_set", <<m, "mlpp", y, v>>) : y \in ys}
  \cup (IF c > 0 THEN {C("M.resize_rows", <<m, r, u>>) : r \in 0..MaxR, u \in Vals} ELSE {})
  \cup {C("M.resize_fill", <<m, r, q, u>>) : r \in 1..MaxR, q \in 1..MaxC, u \in Vals}
  \cup {C("M.fill", <<m, u>>) : u \in Vals}
  \cup {C("M.flat", <<m, k>>) : k \in {"vector", "pool", "bytes", "std", "data", "rows"}}
  \cup {C(o, <<m, w>>) : o \in {"M.duplicate", "M.copy_ctor", "M.set_from_mat", "M.set_from_matr"}}
  \cup {C("M.set_from_mat", <<m, m>>)}
  \cup {C("M.ctor", <<m, k, x.d>>) : k \in {"vectors", "arrays", "stds"}, x \in Mats}
  \cup {C("M.set_from", <<m, k, x.d>>) : k \in {"vectors", "arrays", "stds"}, x \in Mats}
  \cup {C("M.set_from", <<m, k, x.d>>) : k \in {"ptr", "data"}, x \in Mats \ {NewM}}
  \cup {C("M.set_from", <<m, k, x>>) : k \in {"rows", "rowarray"}, x \in {<<>>, <<v>>, <<v, v>>}}
  \cup {C("M.set_data_bad", <<m, i>>) : i \in {0, 1}}
  \cup {C("M.is_equal", <<m, x, t>>) : x \in {m, w, "null"}, t \in {"0.5", "1.5"}}
Cmds(st) == IF st = InitState THEN {C("V.new", <<"v", x>>) : x \in AllRows}
            ELSE IF ~Has(st, "m1") THEN {C("M.new", <<"m1", NewM>>)}
            ELSE IF ~Has(st, "m2") THEN {C("M.new", <<"m2", x>>) : x \in Mats}
            ELSE MatCmds(st, "m1", "m2", "v")

WF(A) == Len(A.d) = A.r /\ \A i \in 1..A.r : Len(A.d[i]) = A.c
StateOK(st) == \A k \in DOMAIN st : k = "v" \/ 
  /\ WF(st[k])
  /\ LET A == st[k] IN
     /\ \A y \in 0..(A.r - 1) : /\ RowRemove(RowAdd(A, A.d[y + 1]), A.r) = A
                               /\ RowSwap(RowSwap(A, y, 0), y, 0) = A
                               /\ \A x \in 0..(A.c - 1) : FlatAt(A, y * A.c + x) = A.d[y + 1][x + 1]
     /\ A.c > 0 => Transpose(Transpose(A)) = A \/ A.r = 0
StepOK(st, e, o) == \A k \in DOMAIN st : (k # e.a[1] /\ e.op # "M.row_get_into") => o.s[k] = st[k]
=========================================================================
