------------------------------ MODULE SigGen ------------------------------
(* Small-scope exploration: two signals, four callables, every reaction      *)
(* from a small set of programs.                                             *)
EXTENDS SigOps
CONSTANTS Calls, MaxConn
C(op, a) == [op |-> op, a |-> a]
Two == {"a", "b"}
Reactions(c) == {<<>>} \cup {<< <<"d", "a", c>> >>} \cup {<< <<"d", "a", d>> >> : d \in Calls} \cup {<< <<"c", "a", d>> >> : d \in Calls}
  \cup {<< <<"d", "a", c>>, <<"c", "a", c>> >>} \cup {<< <<"e", s, "e2", <<7>> >> >> : s \in Two} \cup {<< <<"d", "a", c>>, <<"e", "a", "e1", <<>> >> >>, << <<"e", "a", "e2", <<8, 9>> >>, <<"d", "a", c>> >>}
Progs(st) == {<<>>} \cup {<< <<c, p>> >> : c \in {st.a[i] : i \in 1..Len(st.a)}, p \in UNION {Reactions(c) : c \in Calls}}
(* names first: both signals exist; a is emitted, b only takes part through callbacks *)
Cmds(st) ==
  IF ~Has(st, "a") THEN {C("S.new", <<"a">>)} ELSE IF ~Has(st, "b") THEN {C("S.new", <<"b">>), C("S.copy", <<"b", "a">>)}
  ELSE {C("S.connect", <<s, c>>) : s \in {s \in Two : Len(st[s]) < MaxConn}, c \in Calls} \cup {C(op, <<s, c>>) : op \in {"S.disconnect", "S.is"}, s \in Two, c \in Calls}
    \cup {C("S.copy", <<s, t>>) : s \in Two, t \in Two}
    \cup {C("S.emit", <<"a", "e1", ps, pr>>) : ps \in {<<>>, <<5, 6>>}, pr \in Progs(st)} \cup {C("S.emit", <<"b", "e2", <<1, 2, 3>>, <<>> >>)}
Do(st, e) == SDo(st, e)
StateOK(st) == \A s \in DOMAIN st : Len(st[s]) <= MaxConn + 3
StepOK(st, e, o) ==
  /\ (e.op \in {"S.connect", "S.disconnect"} => \A s \in DOMAIN st : s # e.a[1] => o.s[s] = st[s])
  /\ (e.op = "S.emit" /\ e.a[4] = <<>> => o.s = st /\ [i \in 1..Len(o.r) |-> o.r[i][1]] = st[e.a[1]])
============================================================================
