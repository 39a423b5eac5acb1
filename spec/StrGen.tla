------------------------------ MODULE StrGen ------------------------------
(* Small-scope exploration of histories over three strings.  "~" remembers  *)
(* which of them may share storage.                                         *)
EXTENDS StrOps, TLC
CONSTANTS Chars, MaxLen
InitState == [a |-> <<>>, b |-> <<>>, c |-> <<>>]
Sh(st) == IF "~" \in DOMAIN st THEN st["~"] ELSE <<>>
Core(st) == [r \in {"a", "b", "c"} |-> st[r]]
(* calls of different shapes get argument lists of different lengths, so that TLC never compares unlike values *)
C(op, a) == [op |-> op, a |-> a]
P(op, a, n) == C(op, a \o [i \in 1..(n - Len(a)) |-> 0])
Rg == {"a", "b", "c"}
Cmds(st0) == LET st == Core(st0) R0 == {"a", "b"} IN
  {P("S.set", <<"a", <<x, y>> >>, 9) : x \in Chars, y \in Chars} \cup {C("S.clear", <<r>>) : r \in R0}
  \cup {C("S.copy", <<r, q, b>>) : r \in Rg, q \in Rg, b \in BOOLEAN}
  \cup {P("S.append", <<r, q>>, 7) : r \in R0, q \in {q \in Rg : Len(st[q]) <= MaxLen}}
  \cup UNION {IF Len(st[r]) < MaxLen THEN {C("S.appendch", <<r, x>>) : x \in Chars} \cup {P("S.appendc", <<r, <<x>> >>, 8) : x \in Chars} ELSE {} : r \in R0}
  \cup UNION {{C("S.put", <<r, i, x, b>>) : i \in 0..(Len(st[r]) - 1), x \in Chars, b \in BOOLEAN} \cup {P("S.putp", <<r, i, x>>, 5) : i \in 0..(Len(st[r]) - 1), x \in Chars}
     \cup {C(op, <<r, i>>) : op \in {"S.remove", "S.cut"}, i \in 0..(Len(st[r]) - 1)} \cup {P("S.erase", <<r, i, 1>>, 6) : i \in 0..(Len(st[r]) - 1)}
     \cup {P("S.keep", <<r, q, f>>, 10) : q \in R0, f \in {"upper", "lower"}} : r \in R0}
  \cup {P("S.plus", <<"c", "a", "b">>, 11)}
Do(st0, e) == LET st == Core(st0) n == SDo(st, e) d == e.a[1] rest == SelectSeq(Sh(st0), LAMBDA p : p[1] # d /\ p[2] # d)
    with == {q \in Rg \ {d} : \/ q = e.a[2] \/ \E i \in 1..Len(Sh(st0)) : Sh(st0)[i] \in {<<q, e.a[2]>>, <<e.a[2], q>>}}
    add == IF e.op = "S.copy" /\ e.a[2] # d THEN SelectSeq(<< <<"a", "b">>, <<"a", "c">>, <<"b", "c">> >>, LAMBDA p : (p[1] = d /\ p[2] \in with) \/ (p[2] = d /\ p[1] \in with)) ELSE <<>>
    keep == e.op = "S.copy" /\ e.a[2] = d
    all == IF keep THEN Sh(st0) ELSE SelectSeq(<< <<"a", "b">>, <<"a", "c">>, <<"b", "c">> >>, LAMBDA p : (\E i \in 1..Len(rest) : rest[i] = p) \/ \E i \in 1..Len(add) : add[i] = p)
  IN [s |-> [r \in Rg \cup {"~"} |-> IF r = "~" THEN all ELSE n[r]], r |-> "ok"]
StateOK(st) == \A i \in 1..Len(Sh(st)) : st[Sh(st)[i][1]] = st[Sh(st)[i][2]]
StepOK(st, e, o) == \A r \in Rg : r # e.a[1] => o.s[r] = st[r]
============================================================================
