------------------------------ MODULE SigOps ------------------------------
(* Signals: every signal holds an ordered list of connections to callables   *)
(* (names).  Emitting calls the connections that existed when it started and *)
(* still exist when their turn comes, in order, each once, with the          *)
(* emission's own emitter and parameters, also when callbacks connect,       *)
(* disconnect or emit again.  progs gives what callables do when called:     *)
(* the first entry for a callable is used up by its next call.               *)
EXTENDS Heap
Names(l) == [i \in 1..Len(l) |-> l[i].c]
Tag(st) == [x \in DOMAIN st |-> [i \in 1..Len(st[x]) |-> [id |-> i, c |-> st[x][i]]]]
FirstOf(l, P(_)) == LET S == {i \in 1..Len(l) : P(l[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
DropAt(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Disc(l, c) == LET i == FirstOf(l, LAMBDA x : x.c = c) IN IF i = 0 THEN l ELSE DropAt(l, i)
(* x: [cn |-> signal -> connections, nid |-> next connection id, pr |-> programs, log |-> calls] *)
RECURSIVE Emit(_, _, _, _), Walk(_, _, _, _, _), Acts(_, _)
Emit(x, s, em, ps) == Walk(x, s, em, ps, x.cn[s])
Walk(x, s, em, ps, todo) ==
  IF todo = <<>> THEN x
  ELSE IF FirstOf(x.cn[s], LAMBDA y : y.id = Head(todo).id) = 0 THEN Walk(x, s, em, ps, Tail(todo))
  ELSE LET c == Head(todo).c pi == FirstOf(x.pr, LAMBDA y : y[1] = c)
           pos == Len(x.log) + 1
           x1 == [x EXCEPT !.log = Append(@, <<c, s, em, ps>>), !.pr = IF pi = 0 THEN @ ELSE DropAt(@, pi)]
           x2 == IF pi = 0 THEN x1 ELSE Acts(x1, x.pr[pi][2])
       IN Walk(x2, s, em, ps, Tail(todo))
Acts(x, as) ==
  IF as = <<>> THEN x
  ELSE LET a == Head(as) IN Acts(
    CASE a[1] = "c" -> [x EXCEPT !.cn[a[2]] = Append(@, [id |-> x.nid, c |-> a[3]]), !.nid = @ + 1]
      [] a[1] = "d" -> [x EXCEPT !.cn[a[2]] = Disc(@, a[3])]
      [] a[1] = "e" -> Emit(x, a[2], a[3], a[4]), Tail(as))
SDo(st, e) ==
  LET a == e.a k == e.op IN
  CASE k = "S.new" -> Out(Put(st, a[1], <<>>), "ok")
    [] k = "S.copy" -> Out(Put(st, a[1], st[a[2]]), "ok")
    [] k = "S.del" -> Out([x \in DOMAIN st \ {a[1]} |-> st[x]], "ok")
    [] k = "S.connect" -> Out([st EXCEPT ![a[1]] = Append(@, a[2])], "ok")
    [] k = "S.disconnect" -> LET i == FirstOf(st[a[1]], LAMBDA y : y = a[2]) IN Out(IF i = 0 THEN st ELSE [st EXCEPT ![a[1]] = DropAt(@, i)], "ok")
    [] k = "S.is" -> Out(st, FirstOf(st[a[1]], LAMBDA y : y = a[2]) # 0)
    [] k = "S.emit" -> LET x == Emit([cn |-> Tag(st), nid |-> 1000, pr |-> a[4], log |-> <<>>], a[1], a[2], a[3]) IN
         Out([z \in DOMAIN st |-> Names(x.cn[z])], x.log)
============================================================================
