------------------------------ MODULE FsSpec ------------------------------
EXTENDS FsOps
(* where a line list ends that is not proper UTF-8 is open: take over what was seen *)
Open9(st, e, o) == e.op = "F" /\ e.a[1] = "gcsv" /\ SameX(o.r, AnyText)
Then(st, e, o) == IF Open9(st, e, o) THEN [o.s EXCEPT !.h[e.a[2]].pos = e.s.h[e.a[2]].pos, !.h[e.a[2]].eof = e.s.h[e.a[2]].eof] ELSE o.s
Expected(st, e) == LET o == FsDo(st, e) IN [s |-> Seen(o.s), r |-> o.r]
Conforms(st, e) == LET o == FsDo(st, e) IN SameX(Seen(Then(st, e, o)), e.s) /\ (SameX(o.r, AnyText) \/ SameX(o.r, e.r))
After(st, e) == Then(st, e, FsDo(st, e))
===========================================================================
