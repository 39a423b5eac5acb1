------------------------------ MODULE SigSpec ------------------------------
EXTENDS SigOps
Expected(st, e) == SDo(st, e)
Conforms(st, e) == LET x == SDo(st, e) IN SameX(x.r, e.r) /\ SameX(x.s, e.s)
After(st, e) == e.s
============================================================================
