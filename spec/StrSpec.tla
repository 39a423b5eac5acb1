------------------------------ MODULE StrSpec ------------------------------
EXTENDS StrOps
Cut(e) == IF e.a[3] < 0 THEN e.a[2] ELSE SubSeq(e.a[2], 1, e.a[3])
InitState == [a |-> <<>>, b |-> <<>>, c |-> <<>>]
Expected(st, e) == IF e.op = "Q" THEN (IF e.a[1] \in Rel THEN <<>> ELSE Q(e.a[1], st[e.a[2]], SubSeq(e.a, 3, Len(e.a)))) ELSE SDo(st, e)
Conforms(st, e) == IF e.op = "Q" THEN SameX(e.s, st) /\ QOk(e.a[1], st[e.a[2]], SubSeq(e.a, 3, Len(e.a)), e.r) ELSE SameX(e.s, SDo(st, e)) /\ CASE e.op = "S.parse8" -> e.r = Err8(Parse8(Cut(e), e.a[4])) [] e.op = "S.parse16" -> e.r = (IF Parse16(Cut(e)).odd THEN "parse" ELSE "ok") [] OTHER -> TRUE
After(st, e) == e.s
============================================================================
