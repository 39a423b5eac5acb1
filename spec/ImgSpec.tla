------------------------------ MODULE ImgSpec ------------------------------
EXTENDS ImgOps
Slack(f) == IF IsFl(f) THEN 4 ELSE 0
ImOk(lo, hi, got) == got.w = lo.w /\ got.h = lo.h /\ got.f = lo.f /\ got.mm = lo.mm /\ got.lk = lo.lk /\ Len(got.d) = Len(lo.d) /\ \A i \in 1..Len(got.d) : got.d[i] >= lo.d[i] - Slack(lo.f) /\ got.d[i] <= hi.d[i] + Slack(lo.f)
Still(st, e, k) == SameX(st[k], e.s[k])
Expected(st, e) == ImgDo(st, e, 0)
Conforms(st, e) == LET lo == ImgDo(st, e, -1) hi == ImgDo(st, e, 1) IN (SameX(lo.r, e.r) \/ SameX(lo.r, "any") \/ SameTol(lo.r, e.r, 0, Slack(st[e.a[2]].f))) /\ \A k \in Ks : IF SameX(lo.s[k], st[k]) /\ SameX(hi.s[k], st[k]) THEN Still(st, e, k) ELSE ImOk(lo.s[k], hi.s[k], e.s[k])
After(st, e) == e.s
===========================================================================
