------------------------------- MODULE SysSpec -------------------------------
EXTENDS SysOps, TLC
InitState == [a |-> [i \in 1..8 |-> [b |-> <<>>, port |-> 0, un |-> FALSE]], s |-> [i \in 1..8 |-> NoSock], x |-> [i \in 1..4 |-> NoProc], file |-> <<>>]
I(e, k) == e.a[k] + 1
Ad(b, p, u) == [b |-> b, port |-> p, un |-> u]
AEnd(st, e) == CASE e.op = "a.port" -> Put(st.a, I(e, 1), Ad(IF e.a[4] THEN IF e.a[3] THEN Zero(15) \o <<1>> ELSE Zero(16) ELSE IF e.a[3] THEN <<127, 0, 0, 1>> ELSE Zero(4), e.a[2], FALSE))
  [] e.op = "a.ip" -> (LET b == IF e.a[4] THEN V6(e.a[2]) ELSE V4(e.a[2]) IN Put(st.a, I(e, 1), Ad(IF b = Bad THEN Zero(IF e.a[4] THEN 16 ELSE 4) ELSE b, e.a[3], b = Bad)))
  [] e.op \in {"a.sock", "a.set6"} -> Put(st.a, I(e, 1), Ad(e.a[2], e.a[3], FALSE)) [] e.op = "a.setport" -> Put(st.a, I(e, 1), [st.a[I(e, 1)] EXCEPT !.port = e.a[2]])
  [] e.op \in {"a.copy", "a.assign"} -> Put(st.a, I(e, 2), st.a[I(e, 1)]) [] OTHER -> st.a
(* sockets *)
New(k) == [NoSock EXCEPT !.is = k]
SEnd(st, e) == LET s == st.s IN CASE e.op = "s.new" -> Put(s, I(e, 1), NoSock) [] e.op = "s.listen" -> Put(Leave(s, I(e, 1)), I(e, 1), New("listen"))
  [] e.op = "s.pair" -> (LET t == Leave(Leave(s, I(e, 2)), I(e, 3)) IN Put(Put(t, I(e, 2), [New("conn") EXCEPT !.peer = I(e, 3)]), I(e, 3), [New("conn") EXCEPT !.peer = I(e, 2)]))
  [] e.op = "s.send" -> (LET x == s[I(e, 1)] IN IF x.shut \/ x.peer = 0 THEN s ELSE Put(s, x.peer, [s[x.peer] EXCEPT !.rx = @ \o SubSeq(e.a[2], 1, e.r)]))
  [] e.op = "s.read" -> (IF Len(e.r[2]) > 0 THEN Put(s, I(e, 1), [s[I(e, 1)] EXCEPT !.rx = SubSeq(@, Len(e.r[2]) + 1, Len(@))]) ELSE s)
  [] e.op = "s.shut" -> (LET x == s[I(e, 1)] t == Put(s, I(e, 1), [x EXCEPT !.shut = TRUE]) IN IF x.peer = 0 THEN t ELSE Put(t, x.peer, [t[x.peer] EXCEPT !.fin = TRUE]))
  [] e.op \in {"s.close", "s.del"} -> Leave(s, I(e, 1))
  [] e.op = "s.adopt" -> (LET x == s[I(e, 1)] t == Put(Put(Leave(s, I(e, 2)), I(e, 1), NoSock), I(e, 2), x) IN IF x.peer = 0 THEN t ELSE Put(t, x.peer, [t[x.peer] EXCEPT !.peer = I(e, 2)]))
  [] OTHER -> s
SOk(st, e) == LET s == st.s IN CASE e.op = "s.unset" -> e.r = <<-1, -1, -1, -1, -1, -1, -1, FALSE, -1>> [] e.op = "s.listen" -> e.r = <<0, 0, 0, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>
  [] e.op = "s.pair" -> e.r = <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, 0, 0, TRUE, TRUE>> [] e.op \in {"s.none", "s.inuse", "s.refused", "s.opt", "s.adopt"} -> e.r = TRUE
  [] e.op = "s.send" -> SendOk(s[I(e, 1)], e.a[2], e.r) [] e.op = "s.read" -> (ReadOk(s[I(e, 1)], e.a[2], e.r) \/ (~e.a[3] /\ e.r[1] = -1))   \* without waiting, bytes may still be on their way
   [] e.op = "s.shut" -> e.r = 0 [] e.op = "s.close" -> e.r = 0
  [] e.op = "s.fds" -> e.r = Opened(s) [] OTHER -> TRUE
(* children: e.a = slot, program, mode, lines, output, blocking, stderr, mutex, setters, code (-1 = signal), waits, to file *)
Busy(p) == p.is \in {"pipe", "child"}
Lines(e) == Out(e.a[4], e.a[7])
XEnd(st, e) == LET k == I(e, 1) p == st.x[k] IN CASE e.op = "x.run" ->
       (IF Busy(p) THEN st.x ELSE IF e.a[6] THEN Put(st.x, k, [p EXCEPT !.data = e.r[2], !.code = e.a[10]]) ELSE Put(st.x, k, [is |-> IF e.a[5] THEN "pipe" ELSE "child", todo |-> IF e.a[5] THEN Lines(e) ELSE <<>>, data |-> e.r[2], code |-> p.code, next |-> e.a[10]]))
  [] e.op = "x.missing" -> (IF Busy(p) THEN st.x ELSE Put(st.x, k, [p EXCEPT !.data = e.r[2], !.code = -1]))
  [] e.op = "x.poll" -> (IF p.is # "pipe" THEN st.x ELSE IF p.todo = <<>> THEN Put(st.x, k, [p EXCEPT !.is = "idle", !.code = p.next, !.data = e.r[2]]) ELSE Put(st.x, k, [p EXCEPT !.todo = Tail(@), !.data = Head(p.todo)]))
  [] e.op = "x.wait" -> (IF p.is = "child" THEN Put(st.x, k, [p EXCEPT !.is = "idle", !.code = p.next]) ELSE st.x)
  [] e.op = "x.stop" -> (IF p.is = "pipe" THEN Put(st.x, k, [p EXCEPT !.is = "idle", !.code = p.next]) ELSE Put(st.x, k, [p EXCEPT !.is = "idle", !.code = e.r[3]]))
  [] e.op = "x.free" -> Put(st.x, k, NoProc) [] OTHER -> st.x
FEnd(st, e) == IF e.op = "x.run" /\ ~Busy(st.x[I(e, 1)]) THEN (IF e.a[12] THEN Flat2(Out(e.a[4], FALSE)) ELSE <<>>) ELSE st.file
XOk(st, e) == LET p == st.x[I(e, 1)] r == e.r IN CASE e.op = "x.run" ->
       (IF Busy(p) THEN r[1] = (IF e.a[9] THEN 44 ELSE 22) /\ r[2] = p.data /\ CodeOk(p.code, r[3]) ELSE r[1] = 0 /\ r[4] = 0 /\
          (IF e.a[6] THEN CodeOk(e.a[10], r[3]) /\ (IF e.a[5] THEN LET o == Flat2(Lines(e)) IN r[2] = o \/ r[2] = p.data \o o ELSE r[2] \in {p.data, <<>>}) ELSE r[2] \in {p.data, <<>>}))
  [] e.op = "x.missing" -> r[1] = (IF Busy(p) THEN 22 ELSE 0) /\ r[4] = 0 /\ (Busy(p) \/ r[3]) /\ r[2] \in {p.data, <<>>}
  [] e.op = "x.empty" -> r = (IF Busy(p) THEN 22 ELSE 9)
  [] e.op = "x.poll" -> r[5] = 0 /\ (IF p.is # "pipe" THEN r[1] = 0 /\ r[2] = p.data /\ CodeOk(p.code, r[3]) ELSE IF p.todo = <<>> THEN r[1] = 18 /\ r[2] \in {p.data, <<>>} /\ CodeOk(p.next, r[3]) /\ ~r[4] ELSE r[1] = 0 /\ r[2] = Head(p.todo) /\ (Len(p.todo) > 1 => r[4]))
  [] e.op = "x.running" -> (p.is = "idle" => r = FALSE) /\ ((p.is = "pipe" /\ p.todo # <<>>) => r = TRUE)
  [] e.op = "x.wait" -> r[5] = 0 /\ ~r[4] /\ (p.is = "child" => CodeOk(p.next, r[3])) /\ (p.is = "idle" => CodeOk(p.code, r[3])) /\ r[2] = p.data
  [] e.op = "x.stop" -> r[1] = 0 /\ ~r[4] /\ r[5] = 0 /\ r[6] /\ r[7] /\ (p.is = "pipe" /\ p.todo = <<>> => CodeOk(p.next, r[3])) /\ (p.is = "idle" => CodeOk(p.code, r[3]))
  [] e.op = "x.free" -> r = TRUE \/ \E k \in 1..4 : k # I(e, 1) /\ st.x[k].is # "idle"
  [] e.op = "x.file" -> r = st.file [] OTHER -> TRUE
After(st, e) == [a |-> IF SubSeq(e.op, 1, 2) = "a." THEN AEnd(st, e) ELSE st.a, s |-> IF SubSeq(e.op, 1, 2) = "s." THEN SEnd(st, e) ELSE st.s, x |-> IF SubSeq(e.op, 1, 2) = "x." THEN XEnd(st, e) ELSE st.x, file |-> FEnd(st, e)]
Conforms(st, e) == CASE e.op = "a.get" -> AdGetOk(st.a[I(e, 1)], e.r) [] SubSeq(e.op, 1, 2) = "s." -> SOk(st, e) [] SubSeq(e.op, 1, 2) = "x." -> XOk(st, e) [] OTHER -> TRUE
Expected(st, e) == CASE SubSeq(e.op, 1, 2) = "a." -> ToString(st.a[I(e, 1)]) [] SubSeq(e.op, 1, 2) = "s." -> ToString(st.s) [] OTHER -> ToString(st.x)
=============================================================================
