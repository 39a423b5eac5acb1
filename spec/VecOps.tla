----------------------------- MODULE VecOps -----------------------------
(* MLPPVector: a heap of vector slots and the meaning of every public    *)
(* call on them.  VDo(st, e) is the transition: the new heap and result. *)
EXTENDS Heap

(* ---- element-wise definitions ---- *)
BinF(op, x, y) ==
  CASE op = "hadamard_product" -> RMul(x, y)
    [] op = "division_element_wise" -> RDiv(x, y)
    [] op = "add" -> RAdd(x, y)
    [] op = "sub" -> RSub(x, y)
    [] op = "max" -> RMax(x, y)
    [] op = "min" -> RMin(x, y)
UnF(op, x) ==
  CASE op = "log" -> RLn(x)
    [] op = "log10" -> RFun("log10", x)
    [] op = "exp" -> RExp(x)
    [] op = "erf" -> RFun("erf", x)
    [] op = "sqrt" -> RSqrt(x)
    [] op = "cbrt" -> RFun("cbrt", x)
    [] op = "abs" -> RAbs(x)
    [] op = "sin" -> RFun("sin", x)
    [] op = "cos" -> RFun("cos", x)
ScaF(op, x, k) ==
  CASE op = "scalar_multiply" -> RMul(x, k)
    [] op = "scalar_add" -> RAdd(x, k)
    [] op = "exponentiate" -> RPow(x, k)
BinV(op, x, y) == [i \in 1..Len(x) |-> BinF(op, x[i], y[i])]
UnV(op, x) == [i \in 1..Len(x) |-> UnF(op, x[i])]
ScaV(op, x, k) == [i \in 1..Len(x) |-> ScaF(op, x[i], k)]
NormSq(x) == RDot(x, x)
Diff(x, y) == BinV("sub", x, y)
ArgBest(v, Better(_, _)) ==
  IF v = <<>> THEN -1
  ELSE (CHOOSE i \in 1..Len(v) : /\ \A j \in 1..Len(v) : ~Better(v[j], v[i])
                                 /\ \A j \in 1..(i - 1) : Better(v[i], v[j])) - 1
Red(op, v) ==
  CASE op = "max_element" -> IF v = <<>> THEN "-Infinity" ELSE At(v, ArgBest(v, RGt))
    [] op = "min_element" -> IF v = <<>> THEN "Infinity" ELSE At(v, ArgBest(v, RLt))
    [] op = "max_element_index" -> ArgBest(v, RGt)
    [] op = "min_element_index" -> ArgBest(v, RLt)
    [] op = "norm_2" -> RSqrt(NormSq(v))
    [] op = "norm_sq" -> NormSq(v)
    [] op = "sum_elements" -> RSum(v)
Red2(op, v, w) ==
  CASE op = "dot" -> RDot(v, w)
    [] op = "euclidean_distance" -> RSqrt(NormSq(Diff(v, w)))
    [] op = "euclidean_distance_squared" -> NormSq(Diff(v, w))
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                 RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                 RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
SubRows(v, m) == [j \in 1..Len(v) |-> RSub(v[j], RSum([i \in 1..m.r |-> m.d[i][j]]))]

(* result of a form: "i" in place, "n" new object into dst, "b" written into dst *)
Form(st, f, dst, ok, val) ==
  IF ok THEN Out(Put(st, dst, val), "ok")
  ELSE Out(st, IF f = "n" THEN "null" ELSE "ok")

VDo(st, e) ==
  LET a == e.a
      op == e.op
  IN
  CASE op = "V.new" -> Out(Put(st, a[1], MapS(R, a[2])), "ok")
    [] op = "M.new" -> Out(Put(st, a[1], a[2]), "ok")
    [] op = "V.push_back" -> Out([st EXCEPT ![a[1]] = Append(@, a[2])], "ok")
    [] op = "V.append" -> Out(IF Has(st, a[2]) THEN [st EXCEPT ![a[1]] = @ \o st[a[2]]] ELSE st, "ok")
    [] op = "V.remove" -> Out(IF InRange(st[a[1]], a[2]) THEN [st EXCEPT ![a[1]] = RemoveIdx(@, a[2])] ELSE st, "ok")
    [] op = "V.remove_unordered" -> Out(IF InRange(st[a[1]], a[2]) THEN [st EXCEPT ![a[1]] = RemoveUnordered(@, a[2])] ELSE st, "ok")
    [] op = "V.erase" -> LET i == FindFrom(st[a[1]], a[2], 0) IN
         Out(IF i = -1 THEN st ELSE [st EXCEPT ![a[1]] = RemoveIdx(@, i)], "ok")
    [] op = "V.erase_multi" -> LET r == EraseMulti(st[a[1]], a[2], 0, 0) IN Out([st EXCEPT ![a[1]] = r.v], r.n)
    [] op = "V.invert" -> Out([st EXCEPT ![a[1]] = Rev(@)], "ok")
    [] op = "V.clear" -> Out([st EXCEPT ![a[1]] = <<>>], "ok")
    [] op = "V.reset" -> Out([st EXCEPT ![a[1]] = <<>>], "ok")
    [] op = "V.resize" -> Out([st EXCEPT ![a[1]] = Resized(@, a[2], a[3])], "ok")
    [] op = "V.fill" -> Out([st EXCEPT ![a[1]] = Full(Len(@), a[2])], "ok")
    [] op = "V.insert" -> Out(IF a[2] >= 0 /\ a[2] <= Len(st[a[1]]) THEN [st EXCEPT ![a[1]] = InsertIdx(@, a[2], a[3])] ELSE st, "ok")
    [] op = "V.find" -> Out(st, FindFrom(st[a[1]], a[2], a[3]))
    [] op = "V.sort" -> Out([st EXCEPT ![a[1]] = SortedR(@)], "ok")
    [] op = "V.ordered_insert" -> Out([st EXCEPT ![a[1]] = InsertIdx(@, OrderedPos(@, a[2]), a[2])], "ok")
    [] op = "V.get" -> Out(st, IF InRange(st[a[1]], a[2]) THEN At(st[a[1]], a[2]) ELSE 0)
    [] op = "V.getref" -> Out(st, Full(3, At(st[a[1]], a[2])))
    [] op \in {"V.set", "V.setref"} -> Out(IF InRange(st[a[1]], a[2]) THEN [st EXCEPT ![a[1]] = SetAt(@, a[2], a[3])] ELSE st, "ok")
    [] op = "V.query" -> Out(st, <<Len(st[a[1]]), Len(st[a[1]]) = 0>>)
    [] op \in {"V.to_vector", "V.to_pool", "V.get_data", "V.to_std"} -> Out(st, st[a[1]])
    [] op = "V.to_bytes" -> Out(st, Append(st[a[1]], 0))
    [] op \in {"V.duplicate", "V.copy_ctor"} -> Out(Put(st, a[1], st[a[2]]), "ok")
    [] op = "V.ctor" -> Out(Put(st, a[1], a[3]), "ok")
    [] op = "V.set_from" -> Out([st EXCEPT ![a[1]] = a[3]], "ok")
    [] op \in {"V.set_from_vec", "V.set_from_vecr"} -> Out(IF Has(st, a[2]) THEN [st EXCEPT ![a[1]] = st[a[2]]] ELSE st, "ok")
    [] op = "V.is_equal" -> Out(st, /\ Has(st, a[2])
                                    /\ \/ a[1] = a[2]
                                       \/ /\ Len(st[a[1]]) = Len(st[a[2]])
                                          /\ \A i \in 1..Len(st[a[1]]) : ApproxEq(st[a[1]][i], st[a[2]][i], a[3]))
    [] op = "V.flatten" -> Out([st EXCEPT ![a[1]] = FlattenS([i \in 1..Len(a[2]) |-> st[a[2][i]]])], "ok")
    [] op = "V.flattenn" -> Out(Put(st, a[1], FlattenS([i \in 1..Len(a[3]) |-> st[a[3][i]]])), "ok")
    \* algebra
    [] op = "V.bin" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] 
                           ok == Has(st, x) /\ Has(st, a[5]) /\ Len(st[x]) = Len(st[a[5]]) IN
         IF ok THEN Out(Put(st, a[3], BinV(a[1], st[x], st[a[5]])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "V.un" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] IN
         IF Has(st, x) THEN Out(Put(st, a[3], UnV(a[1], st[x])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "V.sca" -> LET x == IF a[2] = "i" THEN a[3] ELSE a[4] IN
         IF Has(st, x) THEN Out(Put(st, a[3], ScaV(a[1], st[x], a[5])), "ok") ELSE Form(st, a[2], a[3], FALSE, 0)
    [] op = "V.red" -> Out(st, Red(a[1], st[a[2]]))
    [] op = "V.red2" -> Out(st, IF Has(st, a[3]) /\ Len(st[a[2]]) = Len(st[a[3]]) THEN Red2(a[1], st[a[2]], st[a[3]]) ELSE 0)
    [] op = "V.cross" -> Out(Put(st, a[1], Cross(st[a[2]], st[a[3]])), "ok")
    [] op = "V.const" -> LET n == a[4] IN Out(Put(st, a[1], Full(n,
            CASE a[2] \in {"vecn_zero", "create_vec_zero"} -> 0
              [] a[2] \in {"vecn_one", "create_vec_one"} -> 1
              [] OTHER -> a[5])), "ok")
    [] op = "V.submat" -> LET x == IF a[1] = "i" THEN a[2] ELSE a[3]
                              ok == Has(st, x) /\ Has(st, a[4]) /\ st[a[4]].c = Len(st[x]) IN
         \* a mismatch leaves the operands alone; the "n" form answers an unchanged copy
         IF ok THEN Out(Put(st, a[2], SubRows(st[x], st[a[4]])), "ok")
         ELSE IF a[1] = "n" THEN Out(Put(st, a[2], st[x]), "ok") ELSE Out(st, "ok")
    [] op = "V.outer" -> LET x == st[a[2]] y == st[a[3]] IN
         Out(Put(st, a[1], [r |-> Len(x), c |-> Len(y), d |-> [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> RMul(x[i], y[j])]]]), "ok")
    [] op = "V.diag" -> LET x == st[a[2]] n == Len(x) IN
         Out(Put(st, a[1], [r |-> n, c |-> n, d |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN x[i] ELSE 0]]]), "ok")
=========================================================================
