------------------------------ MODULE LinSpec ------------------------------
(* Histories of concurrent programs.  A history is a sequence of calls       *)
(* <<thread, k>> and returns <<thread, k, result>>; it is right if every     *)
(* call can be given one point between its call and its return such that the *)
(* sequential specification below produces all the results.  A lock call has *)
(* its point only when the lock can be had, so a history that lets two       *)
(* threads hold it is rejected.                                              *)
EXTENDS Heap
Q0(i, n) == [n |-> i.n, f |-> i.f, r |-> i.r, mo |-> 0, mc |-> 0, bo |-> 0, po |-> 0, wo |-> 0, wr |-> 0, g |-> 0, x |-> 0,
             nm |-> [t \in 1..n |-> [k \in {} |-> 0]], refs |-> n, rr |-> [t \in 1..n |-> TRUE], rp |-> [t \in 1..n |-> FALSE], rv |-> [t \in 1..n |-> FALSE],
             got |-> [t \in 1..n |-> FALSE], c |-> [t \in 1..n |-> <<1, 2>>], d |-> [t \in 1..n |-> <<1, 2>>], ce |-> [t \in 1..n |-> [k \in {} |-> 0]]]
If(c, q) == IF c THEN {q} ELSE {}
(* names: thread t's register k holds <<text, identity>>; equal live texts share the identity, different ones do not *)
Held(q) == UNION {{q.nm[t][k] : k \in DOMAIN q.nm[t]} : t \in DOMAIN q.nm}
IdOf(q, text) == {p[2] : p \in {p \in Held(q) : p[1] = text}}
Fresh(q, text, id) == \A p \in Held(q) : p[1] # text => p[2] # id
MayName(q, text, id) == IF text = 0 THEN id = 0 ELSE id > 0 /\ (IdOf(q, text) = {} \/ id \in IdOf(q, text)) /\ Fresh(q, text, id)
NmPut(q, t, k, p) == [q EXCEPT !.nm[t] = (k :> p) @@ @]
NmTx(q, t, k) == IF k \in DOMAIN q.nm[t] THEN q.nm[t][k][1] ELSE 0
NmId(q, t, k) == IF k \in DOMAIN q.nm[t] THEN q.nm[t][k][2] ELSE 0
(* the texts 0..6 in alphabetical order: "", "%unique", "Aa", "BB", "C#", "caf.", "long..." *)
Place(x) == CASE x = 0 -> 0 [] x = 5 -> 1 [] x \in 1..3 -> x + 1 [] x = 6 -> 5 [] OTHER -> 6
(* states after call o of thread t returned r; empty if that cannot happen in q *)
Acc(q, t, o, r) ==
  LET f == o[1] x == o[2] y == o[3] ok == SameX(r, "ok") IN
  CASE f = "n.set" -> If(ok, [q EXCEPT !.n = x]) [] f = "n.get" -> If(SameX(r, q.n), q)
    [] f = "n.inc" -> If(SameX(r, q.n + 1), [q EXCEPT !.n = @ + 1]) [] f = "n.pinc" -> If(SameX(r, q.n), [q EXCEPT !.n = @ + 1])
    [] f = "n.dec" -> If(SameX(r, q.n - 1), [q EXCEPT !.n = @ - 1]) [] f = "n.pdec" -> If(SameX(r, q.n), [q EXCEPT !.n = @ - 1])
    [] f = "n.add" -> If(SameX(r, q.n + x), [q EXCEPT !.n = @ + x]) [] f = "n.padd" -> If(SameX(r, q.n), [q EXCEPT !.n = @ + x])
    [] f = "n.sub" -> If(SameX(r, q.n - x), [q EXCEPT !.n = @ - x]) [] f = "n.psub" -> If(SameX(r, q.n), [q EXCEPT !.n = @ - x])
    [] f = "n.xgt" -> LET v == IF q.n >= x THEN q.n ELSE x IN If(SameX(r, v), [q EXCEPT !.n = v])
    [] f = "n.cinc" -> LET v == IF q.n = 0 THEN 0 ELSE q.n + 1 IN If(SameX(r, v), [q EXCEPT !.n = v])
    [] f = "f.set" -> If(ok, [q EXCEPT !.f = TRUE]) [] f = "f.clear" -> If(ok, [q EXCEPT !.f = FALSE]) [] f = "f.to" -> If(ok, [q EXCEPT !.f = x]) [] f = "f.get" -> If(SameX(r, q.f), q)
    [] f \in {"r.ref", "r.refval"} -> LET v == IF q.r = 0 THEN 0 ELSE q.r + 1 IN If(SameX(r, IF f = "r.ref" THEN v # 0 ELSE v), [q EXCEPT !.r = v])
    [] f \in {"r.unref", "r.unrefval"} -> If(q.r > 0 /\ SameX(r, IF f = "r.unref" THEN q.r = 1 ELSE q.r - 1), [q EXCEPT !.r = @ - 1]) [] f = "r.get" -> If(SameX(r, q.r), q)
    [] f = "m.lock" -> If(ok /\ q.mo \in {0, t}, [q EXCEPT !.mo = t, !.mc = @ + 1]) [] f = "m.unlock" -> If(ok /\ q.mo = t, [q EXCEPT !.mo = IF q.mc = 1 THEN 0 ELSE t, !.mc = @ - 1])
    [] f = "m.try" -> IF q.mo \in {0, t} THEN If(SameX(r, TRUE), [q EXCEPT !.mo = t, !.mc = @ + 1, !.got[t] = TRUE]) ELSE If(SameX(r, FALSE), [q EXCEPT !.got[t] = FALSE])
    [] f = "m.rel" -> If(SameX(r, q.got[t]), IF q.got[t] THEN [q EXCEPT !.mo = IF q.mc = 1 THEN 0 ELSE t, !.mc = @ - 1, !.got[t] = FALSE] ELSE q)
    [] f = "m.cs" -> If(q.mo \in {0, t} /\ SameX(r, q.g + 1), [q EXCEPT !.g = @ + 1])
    [] f = "b.lock" -> If(ok /\ q.bo = 0, [q EXCEPT !.bo = t]) [] f = "b.unlock" -> If(ok /\ q.bo = t, [q EXCEPT !.bo = 0])
    [] f = "b.try" -> IF q.bo = 0 THEN If(SameX(r, TRUE), [q EXCEPT !.bo = t, !.got[t] = TRUE]) ELSE If(SameX(r, FALSE), [q EXCEPT !.got[t] = FALSE])
    [] f = "b.rel" -> If(SameX(r, q.got[t]), IF q.got[t] THEN [q EXCEPT !.bo = 0, !.got[t] = FALSE] ELSE q) [] f = "b.cs" -> If(q.bo = 0 /\ SameX(r, q.g + 1), [q EXCEPT !.g = @ + 1])
    [] f = "p.lock" -> If(ok /\ q.po = 0, [q EXCEPT !.po = t]) [] f = "p.unlock" -> If(ok /\ q.po = t, [q EXCEPT !.po = 0]) [] f = "p.cs" -> If(q.po = 0 /\ SameX(r, q.g + 1), [q EXCEPT !.g = @ + 1])
    [] f = "w.rl" -> If(ok /\ q.wo = 0, [q EXCEPT !.wr = @ + 1]) [] f = "w.ru" -> If(ok /\ q.wr > 0, [q EXCEPT !.wr = @ - 1]) [] f = "w.rt" -> IF q.wo = 0 THEN If(SameX(r, TRUE), [q EXCEPT !.wr = @ + 1, !.got[t] = TRUE]) ELSE If(SameX(r, FALSE), [q EXCEPT !.got[t] = FALSE])
    [] f = "w.rrel" -> If(SameX(r, q.got[t]), IF q.got[t] THEN [q EXCEPT !.wr = @ - 1, !.got[t] = FALSE] ELSE q)
    [] f = "w.wrel" -> If(SameX(r, q.got[t]), IF q.got[t] THEN [q EXCEPT !.wo = 0, !.got[t] = FALSE] ELSE q)
    [] f = "w.wl" -> If(ok /\ q.wo = 0 /\ q.wr = 0, [q EXCEPT !.wo = t]) [] f = "w.wu" -> If(ok /\ q.wo = t, [q EXCEPT !.wo = 0]) [] f = "w.wt" -> IF q.wo = 0 /\ q.wr = 0 THEN If(SameX(r, TRUE), [q EXCEPT !.wo = t, !.got[t] = TRUE]) ELSE If(SameX(r, FALSE), [q EXCEPT !.got[t] = FALSE])
    [] f = "w.put" -> If(q.wo = 0 /\ q.wr = 0 /\ SameX(r, q.x + x), [q EXCEPT !.x = @ + x]) [] f = "w.see" -> If(q.wo = 0 /\ SameX(r, <<q.x, q.x>>), q)
    [] f = "g.inc" -> If(t \in {q.mo, q.bo, q.po, q.wo} /\ SameX(r, q.g + 1), [q EXCEPT !.g = @ + 1])
    [] f = "s.make" -> If(MayName(q, y, r), NmPut(q, t, x, <<y, r>>))
    [] f = "s.copy" -> IF x \notin DOMAIN q.nm[t] THEN If(SameX(r, 0), NmPut(q, t, y, <<0, 0>>)) ELSE If(SameX(r, q.nm[t][x][2]), NmPut(q, t, y, q.nm[t][x]))
    [] f = "s.drop" -> If(ok, [q EXCEPT !.nm[t] = [k \in DOMAIN @ \ {x} |-> @[k]]])
    [] f = "s.search" -> IF y = 0 \/ IdOf(q, y) = {} THEN If(SameX(r, 0), NmPut(q, t, x, <<0, 0>>)) ELSE If(r \in IdOf(q, y), NmPut(q, t, x, <<y, r>>))
    [] f = "s.text" -> If(SameX(r, IF x \in DOMAIN q.nm[t] THEN q.nm[t][x][1] ELSE 0), q)
    [] f \in {"s.ctor", "s.var"} -> If(SameX(r, NmId(q, t, x)), q)
    [] f = "s.eq" -> If(SameX(r, NmTx(q, t, x) = NmTx(q, t, y)), q) [] f = "s.eqt" -> If(SameX(r, NmTx(q, t, x) = y), q) [] f = "s.alph" -> If(SameX(r, Place(NmTx(q, t, x)) < Place(NmTx(q, t, y))), q)
    [] f = "s.hash" -> If(SameX(r, TRUE), q) [] f = "s.some" -> If(SameX(r, NmTx(q, t, x) # 0), q) [] f = "s.node" -> If(SameX(r, NmTx(q, t, x) = 5), q)
    [] f = "o.copy" -> If(SameX(r, q.rr[t]), [q EXCEPT !.rp[t] = q.rr[t]]) [] f = "o.var" -> If(SameX(r, q.rr[t]), [q EXCEPT !.rv[t] = q.rr[t]]) [] f = "o.take" -> If(SameX(r, q.rv[t]), [q EXCEPT !.rr[t] = q.rv[t]])
    [] f = "o.drop" -> If(ok, [q EXCEPT !.rr[t] = FALSE]) [] f = "o.dropp" -> If(ok, [q EXCEPT !.rp[t] = FALSE]) [] f = "o.dropv" -> If(ok, [q EXCEPT !.rv[t] = FALSE])
    [] f = "o.find" -> If(SameX(r, \E u \in DOMAIN q.rr : q.rr[u] \/ q.rp[u] \/ q.rv[u]), q)
    [] f \in {"v.make", "v.new"} -> If(SameX(r, TRUE), q) [] f = "v.drop" -> If(ok, q)
    [] f = "c.write" -> LET v == IF x < Len(q.c[t]) THEN SetAt(q.c[t], x, y) ELSE q.c[t] IN If(SameX(r, v), [q EXCEPT !.c[t] = v]) [] f = "c.push" -> LET v == Append(q.c[t], x) IN If(SameX(r, v), [q EXCEPT !.c[t] = v])
    [] f = "c.read" -> If(SameX(r, q.c[t]), q) [] f = "c.copy" -> If(SameX(r, Append(q.c[t], x)), q) [] f = "c.drop" -> If(ok, [q EXCEPT !.c[t] = <<>>])
    [] f = "d.write" -> LET v == IF x < Len(q.d[t]) THEN SetAt(q.d[t], x, y) ELSE q.d[t] IN If(SameX(r, v), [q EXCEPT !.d[t] = v]) [] f = "d.push" -> LET v == Append(q.d[t], x) IN If(SameX(r, v), [q EXCEPT !.d[t] = v])
    [] f = "d.read" -> If(SameX(r, q.d[t]), q) [] f = "d.copy" -> If(SameX(r, Append(q.d[t], x)), q) [] f = "d.drop" -> If(ok, [q EXCEPT !.d[t] = <<>>])
    (* cells <<identity, value>>: a new one is none of those in use *)
    [] f = "a.alloc" -> If(\A u \in DOMAIN q.ce : \A k \in DOMAIN q.ce[u] : q.ce[u][k][1] # r, [q EXCEPT !.ce[t] = (x :> <<r, 7>>) @@ @])
    [] f = "a.free" -> If(ok, [q EXCEPT !.ce[t] = [k \in DOMAIN @ \ {x} |-> @[k]]]) [] f = "a.put" -> If(ok, [q EXCEPT !.ce[t][x][2] = y]) [] f = "a.get" -> If(SameX(r, q.ce[t][x][2]), q)
    [] OTHER -> {}
(* the returns of the history, by thread and call *)
ResOf(h, t, k) == LET i == CHOOSE i \in 1..Len(h) : Len(h[i]) = 3 /\ h[i][1] = t /\ h[i][2] = k IN h[i][3]
RECURSIVE Close(_, _, _)
Close(C, P, h) ==
  LET D == C \cup UNION {UNION {{[q |-> q2, p |-> c.p \ {m}] : q2 \in Acc(c.q, m[1], P[m[1]][m[2]], ResOf(h, m[1], m[2]))} : m \in c.p} : c \in C}
  IN IF D = C THEN C ELSE Close(D, P, h)
RECURSIVE Walk(_, _, _, _)
Walk(C, P, h, i) ==
  IF C = {} THEN FALSE
  ELSE IF i > Len(h) THEN TRUE
  ELSE IF Len(h[i]) = 2 THEN Walk({[q |-> c.q, p |-> c.p \cup {<<h[i][1], h[i][2]>>}] : c \in C}, P, h, i + 1)
  ELSE Walk({c \in Close(C, P, h) : <<h[i][1], h[i][2]>> \notin c.p}, P, h, i + 1)
Calls(P) == LET F[i \in 0..Len(P)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(P[i]) IN F[Len(P)]
(* every call returned and nothing is left over (deadlock, leaks and leftovers add an extra entry) *)
Whole(h, P) == Len(h) = 2 * Calls(P) /\ SameX(h[Len(h)][1] \in 1..Len(P), TRUE)
Linear(h, P, init) == Len(h) = 2 * Calls(P) /\ Walk({[q |-> Q0(init, Len(P)), p |-> {}]}, P, h, 1)
Expected(st, e) == IF e.op = "C.thread" THEN <<0, 0, 0, 0, 0>> ELSE "every history linearizable"
Conforms(st, e) == IF e.op = "C.thread" THEN SameX(e.r, <<0, 0, 0, 0, 0>>) ELSE \A i \in 1..Len(e.r) : Linear(e.r[i], e.a[2], e.a[1])
After(st, e) == st
============================================================================
