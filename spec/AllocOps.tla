------------------------------ MODULE AllocOps ------------------------------
(* Allocators.  A byte pool holds blocks [pos, len, lk, d] under slots; the  *)
(* place of a block is the allocator's choice (the operator Choices lists    *)
(* all of them): blocks never overlap, a locked block does not move, every   *)
(* block keeps its bytes, and a request is refused only if it cannot be met. *)
(* A paged allocator hands out cells [id, v].                                *)
EXTENDS Heap
Align(p, n) == ((n + p.al - 1) \div p.al) * p.al
Slots(p) == DOMAIN p.c
RECURSIVE SumLen(_, _)
SumLen(p, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Align(p, p.c[x].len) + SumLen(p, S \ {x})
Free(p) == p.size - SumLen(p, Slots(p))
(* every block lies in the pool, at a multiple of the alignment, and the blocks are disjoint *)
Disjoint(p) == \A x \in Slots(p) : p.c[x].pos >= 0 /\ p.c[x].pos % p.al = 0 /\ p.c[x].pos + Align(p, p.c[x].len) <= p.size /\ \A y \in Slots(p) : x # y => p.c[x].pos + Align(p, p.c[x].len) <= p.c[y].pos \/ p.c[y].pos + Align(p, p.c[y].len) <= p.c[x].pos
Counts(p) == p.free = Free(p) /\ p.used = p.size - p.free /\ p.peak <= p.free
Bare(b) == [len |-> b.len, lk |-> b.lk, d |-> b.d]
(* the same block; only an unlocked one may have been moved *)
Kept(b, c) == Bare(b) = Bare(c) /\ (b.lk > 0 => b.pos = c.pos)
AllKept(p, t, S) == \A x \in S : Kept(p.c[x], t.c[x])
Head_(t) == <<t.size, t.al, t.need, t.max>>
(* the free stretch that starts at a *)
RoomAt(t, a, S) == LET E == {t.c[y].pos : y \in {y \in S : t.c[y].pos >= a}} \cup {t.size} IN (CHOOSE m \in E : \A k \in E : m <= k) - a
Holes(t) == {RoomAt(t, a, Slots(t)) : a \in {0} \cup {t.c[y].pos + Align(t, t.c[y].len) : y \in Slots(t)}}
Fill(n, v) == [i \in 1..n |-> v]
Dead(t, S) == \A i \in 1..Len(t.dead) : t.dead[i] \in S
DeadIs(t, S) == Dead(t, S) /\ \A x \in S : \E i \in 1..Len(t.dead) : t.dead[i] = x
DeadOf(p) == {p.dead[i] : i \in 1..Len(p.dead)}
MinI(a, b) == IF a < b THEN a ELSE b
(* nothing changed but places of unlocked blocks *)
Same_(p, t) == Slots(t) = Slots(p) /\ AllKept(p, t, Slots(p)) /\ DeadIs(t, DeadOf(p)) /\ t.peak = p.peak
Still(p, t) == p = t
(* may p become t, with result r, by call e? *)
PoolOK(p, e, r, t) ==
  LET a == e.a x == a[1] IN
  Head_(p) = Head_(t) /\ Disjoint(t) /\ Counts(t) /\
  CASE e.op = "A.alloc" ->
        IF SameX(r, "ok") THEN a[2] >= 1 /\ Slots(t) = Slots(p) \cup {x} /\ Cardinality(Slots(p)) < p.max /\ AllKept(p, t, Slots(p)) /\ Bare(t.c[x]) = [len |-> a[2], lk |-> 0, d |-> Fill(a[2], a[3])] /\ DeadIs(t, DeadOf(p) \ {x}) /\ t.peak = MinI(p.peak, t.free)
        ELSE SameX(r, "no") /\ (IF a[2] < 1 \/ a[2] > Free(p) \/ Cardinality(Slots(p)) >= p.max THEN Still(p, t) ELSE Same_(p, t) /\ \A h \in Holes(t) : h < Align(p, a[2]))
    [] e.op = "A.resize" ->
        IF x \notin Slots(p) \/ a[2] < 1 \/ p.c[x].lk > 0 THEN SameX(r, "no") /\ Still(p, t)
        ELSE LET b == p.c[x] IN
          IF SameX(r, "ok") THEN Slots(t) = Slots(p) /\ AllKept(p, t, Slots(p) \ {x}) /\ Bare(t.c[x]) = [len |-> a[2], lk |-> 0, d |-> SubSeq(b.d, 1, MinI(b.len, a[2])) \o Fill(a[2] - MinI(b.len, a[2]), a[3])] /\ DeadIs(t, DeadOf(p)) /\ t.peak = MinI(p.peak, t.free)
          ELSE SameX(r, "no") /\ Same_(p, t) /\ (Align(p, a[2]) > Free(p) + Align(p, b.len) \/ RoomAt(t, t.c[x].pos, Slots(t) \ {x}) < Align(p, a[2]))
    [] e.op = "A.free" -> IF x \notin Slots(p) \/ p.c[x].lk > 0 THEN SameX(r, "ok") /\ Still(p, t)
                          ELSE SameX(r, "ok") /\ Slots(t) = Slots(p) \ {x} /\ (\A y \in Slots(t) : t.c[y] = p.c[y]) /\ DeadIs(t, DeadOf(p) \cup {x}) /\ t.peak = p.peak
    [] e.op = "A.lock" -> IF ~p.need THEN SameX(r, "ok") /\ Still(p, t) ELSE IF x \notin Slots(p) THEN SameX(r, "no") /\ Still(p, t) ELSE SameX(r, "ok") /\ t = [p EXCEPT !.c[x].lk = @ + 1]
    [] e.op = "A.unlock" -> SameX(r, "ok") /\ (IF ~p.need \/ x \notin Slots(p) \/ p.c[x].lk = 0 THEN Still(p, t) ELSE t = [p EXCEPT !.c[x].lk = @ - 1])
    [] e.op = "A.islocked" -> SameX(r, x \in Slots(p) /\ p.c[x].lk > 0) /\ Still(p, t)
    [] e.op = "A.get" -> SameX(r, x \in Slots(p) /\ (p.need => p.c[x].lk > 0)) /\ Still(p, t)
    [] e.op = "A.size" -> SameX(r, IF x \in Slots(p) THEN p.c[x].len ELSE 0) /\ Still(p, t)
    [] e.op = "A.write" -> SameX(r, "ok") /\ (IF x \in Slots(p) /\ a[2] < p.c[x].len THEN t = [p EXCEPT !.c[x].d[a[2] + 1] = a[3]] ELSE Still(p, t))
    [] OTHER -> FALSE
(* a pool at its start; what the alignment of foreign memory costs is lost *)
NewPool(e, t) == LET a == e.a lost == IF a[1] = "ext" /\ a[3] > 1 THEN (a[3] - (a[6] % a[3])) % a[3] ELSE 0 IN
  t.c = [x \in {} |-> 0] /\ t.size = a[2] - lost /\ t.al = (IF a[1] = "own" THEN 1 ELSE a[3]) /\ t.need = a[4] /\ t.max = a[5] /\ t.free = t.size /\ t.used = 0 /\ t.peak = (IF a[1] = "ext" THEN t.size ELSE 0) /\ t.dead = <<>>
(* ---- cells ---- *)
RECURSIVE Pow2(_, _)
Pow2(k, n) == IF k >= n THEN k ELSE Pow2(2 * k, n)
Live(g) == {g.c[x].id : x \in DOMAIN g.c}
Empty(g, ps) == g = [ps |-> ps, tr |-> g.tr, c |-> [x \in {} |-> 0], seen |-> 0, n |-> 0, bad |-> 0]
PageOK(g, e, r, t) ==
  LET a == e.a x == a[1] IN
  t.bad = 0 /\ t.tr = g.tr /\ t.n = (IF g.tr THEN 0 ELSE Cardinality(DOMAIN t.c)) /\
  CASE e.op = "G.alloc" -> SameX(r, "ok") /\ DOMAIN t.c = DOMAIN g.c \cup {x} /\ (\A y \in DOMAIN g.c : t.c[y] = g.c[y]) /\ t.ps = g.ps
                           /\ LET id == t.c[x].id IN t.c[x].v = (IF g.tr THEN 0 ELSE 7) /\ id \notin Live(g) /\ (IF id <= g.seen THEN t.seen = g.seen ELSE id = g.seen + 1 /\ t.seen = id /\ (g.seen % g.ps = 0 => Cardinality(DOMAIN g.c) = g.seen))
    [] e.op = "G.put" -> SameX(r, "ok") /\ t = [g EXCEPT !.c[x].v = a[2]]
    [] e.op = "G.free" -> SameX(r, "ok") /\ t = [g EXCEPT !.c = [y \in DOMAIN @ \ {x} |-> @[y]], !.n = IF g.tr THEN 0 ELSE @ - 1]
    [] e.op = "G.reset" -> SameX(r, "ok") /\ (IF DOMAIN g.c = {} \/ (a[1] /\ g.tr) THEN Empty(t, g.ps) ELSE t = g)
    [] e.op = "G.configure" -> SameX(r, TRUE) /\ (IF g.seen > 0 \/ a[1] = 0 THEN t = g ELSE t = [g EXCEPT !.ps = Pow2(1, a[1])])
    [] OTHER -> FALSE
============================================================================
