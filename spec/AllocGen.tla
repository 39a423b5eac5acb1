------------------------------ MODULE AllocGen ------------------------------
(* The design, step by step: blocks in address order, first fit, compaction   *)
(* downwards when a block does not fit, then around a growing block.  Its     *)
(* transitions are allowed by AllocOps (StepOK), and its histories are        *)
(* replayed on the real allocator.                                            *)
EXTENDS AllocOps, TLC
CONSTANTS Size, Al, Need, MaxE, Lens, MaxLock
Order(p) == LET RECURSIVE O(_)
                O(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : p.c[x].pos <= p.c[y].pos IN <<x>> \o O(S \ {x})
            IN O(Slots(p))
End(p, x) == p.c[x].pos + Align(p, p.c[x].len)
(* move the first k unlocked blocks of o down as far as the block before *)
RECURSIVE Down(_, _, _, _)
Down(p, o, i, k) == IF i > k THEN p ELSE LET lo == IF i = 1 THEN 0 ELSE End(p, o[i - 1]) IN Down(IF p.c[o[i]].lk = 0 THEN [p EXCEPT !.c[o[i]].pos = lo] ELSE p, o, i + 1, k)
RECURSIVE Up(_, _, _, _)
Up(p, o, i, k) == IF i < k THEN p ELSE LET hi == IF i = Len(o) THEN p.size ELSE p.c[o[i + 1]].pos IN Up(IF p.c[o[i]].lk = 0 THEN [p EXCEPT !.c[o[i]].pos = hi - Align(p, p.c[o[i]].len)] ELSE p, o, i - 1, k)
FirstFit(p, n) == LET o == Order(p) A == {0} \cup {End(p, o[i]) : i \in 1..Len(o)} F == {b \in A : RoomAt(p, b, Slots(p)) >= n /\ \A y \in Slots(p) : End(p, y) <= b \/ p.c[y].pos >= b} IN IF F = {} THEN -1 ELSE CHOOSE b \in F : \A d \in F : b <= d
Recount(p, pk) == LET f == Free(p) IN [p EXCEPT !.free = f, !.used = p.size - f, !.peak = IF pk THEN MinI(@, f) ELSE @]
Blk(pos, n, v) == [pos |-> pos, len |-> n, lk |-> 0, d |-> Fill(n, v)]
Sorted(S) == LET RECURSIVE O(_)
                 O(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o O(T \ {x})
             IN O(S)
Res(r, p) == [r |-> r, s |-> [p |-> p]]
PDo(p, e) ==
  LET a == e.a x == a[1] IN
  CASE e.op = "A.alloc" ->
        IF a[2] < 1 \/ a[2] > Free(p) \/ Cardinality(Slots(p)) >= p.max THEN Res("no", p)
        ELSE LET n == Align(p, a[2]) q == IF FirstFit(p, n) >= 0 THEN p ELSE Down(p, Order(p), 1, Len(Order(p))) b == FirstFit(q, n) IN
          IF b < 0 THEN Res("no", q) ELSE Res("ok", Recount([q EXCEPT !.c = (x :> Blk(b, a[2], a[3])) @@ @, !.dead = Sorted(DeadOf(p) \ {x})], TRUE))
    [] e.op = "A.resize" ->
        IF x \notin Slots(p) \/ a[2] < 1 \/ p.c[x].lk > 0 THEN Res("no", p)
        ELSE LET b == p.c[x] n == Align(p, a[2]) o == Order(p) i == CHOOSE i \in 1..Len(o) : o[i] = x
                 P(q) == Recount([q EXCEPT !.c[x].len = a[2], !.c[x].d = SubSeq(b.d, 1, MinI(b.len, a[2])) \o Fill(a[2] - MinI(b.len, a[2]), a[3])], TRUE)
                 Fits(q) == RoomAt(q, q.c[x].pos, Slots(q) \ {x}) >= n
                 q1 == Down(p, o, 1, i) q2 == Up(q1, o, Len(o), i + 1)
             IN IF n > Free(p) + Align(p, b.len) THEN Res("no", p) ELSE IF Fits(p) THEN Res("ok", P(p)) ELSE IF Fits(q1) THEN Res("ok", P(q1)) ELSE IF Fits(q2) THEN Res("ok", P(q2)) ELSE Res("no", q2)
    [] e.op = "A.free" -> IF x \notin Slots(p) \/ p.c[x].lk > 0 THEN Res("ok", p) ELSE Res("ok", Recount([p EXCEPT !.c = [y \in DOMAIN @ \ {x} |-> @[y]], !.dead = Sorted(DeadOf(p) \cup {x})], FALSE))
    [] e.op = "A.lock" -> IF ~p.need THEN Res("ok", p) ELSE IF x \notin Slots(p) THEN Res("no", p) ELSE Res("ok", [p EXCEPT !.c[x].lk = @ + 1])
    [] OTHER -> IF ~p.need \/ x \notin Slots(p) \/ p.c[x].lk = 0 THEN Res("ok", p) ELSE Res("ok", [p EXCEPT !.c[x].lk = @ - 1])
NewArgs == <<"ext", Size, Al, Need, MaxE, 0>>
SlotNames == {"x", "y", "z"}
C(op, a) == [op |-> op, a |-> a]
ValOf(x) == CASE x = "x" -> 1 [] x = "y" -> 2 [] OTHER -> 3
Cmds(st) ==
  IF ~("p" \in DOMAIN st) THEN {C("A.new", NewArgs)}
  ELSE LET p == st.p IN
    {C("A.alloc", <<x, n, ValOf(x)>>) : x \in SlotNames \ Slots(p), n \in Lens}
    \cup {C("A.resize", <<x, n, 9>>) : x \in Slots(p), n \in Lens \cup {Size}}
    \cup {C("A.free", <<x>>) : x \in Slots(p)}
    \cup (IF Need THEN {C("A.lock", <<x>>) : x \in {x \in Slots(p) : p.c[x].lk < MaxLock}} \cup {C("A.unlock", <<x>>) : x \in {x \in Slots(p) : p.c[x].lk > 0}} ELSE {})
Do(st, e) == IF e.op = "A.new" THEN Res("ok", [size |-> Size, al |-> Al, need |-> Need, max |-> MaxE, c |-> [x \in {} |-> 0], free |-> Size, used |-> 0, peak |-> Size, dead |-> <<>>]) ELSE PDo(st.p, e)
StateOK(st) == "p" \in DOMAIN st => Disjoint(st.p) /\ Counts(st.p)
StepOK(st, e, o) == IF e.op = "A.new" THEN NewPool(e, o.s.p)
  ELSE /\ PoolOK(st.p, e, o.r, o.s.p)
       (* without locks nothing that fits is refused *)
       /\ ((\A x \in Slots(st.p) : st.p.c[x].lk = 0) => (e.op = "A.alloc" => (o.r = "ok" <=> (e.a[2] >= 1 /\ Align(st.p, e.a[2]) <= Free(st.p) /\ Cardinality(Slots(st.p)) < st.p.max)))
              /\ (e.op = "A.resize" => (o.r = "ok" <=> (e.a[2] >= 1 /\ Align(st.p, e.a[2]) <= Free(st.p) + Align(st.p, st.p.c[e.a[1]].len)))))
============================================================================
