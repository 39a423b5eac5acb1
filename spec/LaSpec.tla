------------------------------ MODULE LaSpec ------------------------------
(* The linear-algebra object system: vectors, matrices and tensors, and  *)
(* the functional facade over them.                                      *)
EXTENDS LinOps
IsRel(e) == e.op = "L" /\ e.a[1] \in Relational
Do(st, e) == IF e.op = "L" THEN LDo(st, e) ELSE IF SubSeq(e.op, 1, 2) = "T." THEN TDo(st, e) ELSE MDo(st, e)
Expected(st, e) == IF IsRel(e) THEN "a factorisation of the operand" ELSE Do(st, e)
(* Math::log10(double) of the platform layer works in single precision *)
Near(e, x, y) == IF \/ e.op \in {"V.un", "M.un", "T.un"} /\ e.a[1] = "log10"
                    \/ e.op = "L" /\ e.a[1] \in {"log10nm", "log10nv"} THEN SameTol(x, y, "1e-6", "1e-6")
                 \* inverses of the well-conditioned inputs used here lose a few digits, whatever the algorithm
                 ELSE IF e.op \in {"M.inverse", "M.pinverse", "M.power", "M.solve", "M.det", "M.adjoint"} \/ e.op = "L" THEN SameTol(x, y, "1e-7", "1e-8")
                 ELSE Same(x, y)
Conforms(st, e) == IF IsRel(e) THEN RelOk(st, e)
                   ELSE LET o == Do(st, e) IN Near(e, o.r, e.r) /\ Near(e, o.s, e.s)
After(st, e) == e.s
=========================================================================
