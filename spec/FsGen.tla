------------------------------- MODULE FsGen -------------------------------
(* Small-scope exploration: "h" two handles on two files, "b" safe saving,   *)
(* "d" directories, "l" links.                                               *)
EXTENDS FsOps
CONSTANTS Mode
C(op, a) == [op |-> op, a |-> a]
Files == {<<0>>, <<1>>}
AbsP(p) == [a |-> p]
RelP(p) == [r |-> p]
F1 == {C("F", <<"open", h, p, m>>) : h \in Hs, p \in Files, m \in {1, 2, 3, 7}} \cup {C("F", <<"close", h>>) : h \in Hs}
HCmds(st) == {C("F", <<"open", "f1", p, m>>) : p \in Files, m \in {1, 2, 3, 7}} \cup {C("F", <<"open", "f2", <<0>>, 1>>)}
  \cup UNION {{C("F", <<m, h>>) : m \in {"close", "g8", "gline", "gtok", "gpas", "flush", "len"}} : h \in {h \in Hs : Open(st.h[h])}}
  \cup (IF Open(st.h.f1) THEN {C("F", <<"s8", "f1", <<10>>>>), C("F", <<"s16", "f1", <<1, 0>>>>), C("F", <<"spas", "f1", <<98>>>>), C("F", <<"seek", "f1", 0>>), C("F", <<"seek", "f1", 2>>), C("F", <<"end", "f1", -1>>), C("F", <<"gbuf", "f1", 3>>), C("F", <<"swap", "f1", TRUE>>)} ELSE {})
  \cup {C("S", <<"read", <<0>>>>)}
BCmds(st) == {C("F", <<"open", "f1", p, m>>) : p \in {<<0>>, <<1>>, <<5, 0>>}, m \in {1, 2}} \cup {C("F", <<"sstr", "f1", <<97>>>>), C("F", <<"close", "f1">>), C("F", <<"drop", "f1">>), C("F", <<"flush", "f1">>), C("F", <<"open", "f2", <<0>>, 1>>), C("F", <<"open", "f2", <<0>>, 2>>), C("F", <<"close", "f2">>)}
  \cup {C("S", <<"backup", <<>>, b>>) : b \in BOOLEAN} \cup {C("S", <<"write", p, <<98>>>>) : p \in {<<0>>, <<1>>, <<100>>}} \cup {C("S", <<"read", p>>) : p \in {<<0>>, <<1>>}}
  \cup {C("D", <<"link", AbsP(<<1>>), AbsP(<<0>>)>>), C("D", <<"cp", AbsP(<<1>>), AbsP(<<0>>), -1>>), C("D", <<"rm", AbsP(<<0>>)>>)}
DP == {<<0>>, <<1>>, <<0, 0>>, <<0, 1>>}
DCmds(st) == {C("D", <<"mk", AbsP(p)>>) : p \in DP} \cup {C("D", <<"mkr", RelP(<<0, 1>>)>>), C("D", <<"erase">>), C("D", <<"cwd">>), C("D", <<"ls", TRUE>>), C("D", <<"cd", RelP(<<-1>>)>>)} \cup {C("S", <<"writeb", p, <<7>>>>) : p \in {<<1>>, <<0, 0>>}}
  \cup {C("D", <<"cd", RelP(<<n>>)>>) : n \in {0, 1}} \cup {C("D", <<"rm", RelP(<<n>>)>>) : n \in {0, 1}} \cup {C("D", <<"ren", AbsP(p), AbsP(q)>>) : p \in DP, q \in DP} \cup {C("D", <<"cpd", AbsP(p), AbsP(q), -1, FALSE>>) : p \in {<<0>>, <<0, 0>>}, q \in {<<1>>, <<0, 1>>, <<1, 1>>}}
  \cup {C("D", <<"cp", AbsP(<<0, 0>>), AbsP(<<1>>), 384>>)} \cup (IF Len(st.fs) > 0 THEN {C("D", <<m, RelP(<<0>>)>>) : m \in {"fe", "de"}} ELSE {})
LP == {<<0>>, <<1>>, <<0, 0>>}
LCmds(st) == {C("D", <<"mk", AbsP(p)>>) : p \in LP} \cup {C("D", <<"link", AbsP(p), AbsP(q)>>) : p \in LP, q \in LP} \cup {C("S", <<"writeb", p, <<7, 8>>>>) : p \in LP} \cup {C("D", <<"rm", AbsP(p)>>) : p \in LP}
  \cup {C("D", <<"ren", AbsP(p), AbsP(q)>>) : p \in LP, q \in LP} \cup {C("D", <<"cpd", AbsP(<<0>>), AbsP(<<1>>), -1, b>>) : b \in BOOLEAN} \cup {C("D", <<"cp", AbsP(p), AbsP(<<1>>), -1>>) : p \in LP} \cup {C("D", <<"erase">>), C("D", <<"cd", AbsP(<<0>>)>>), C("D", <<"ls", FALSE>>)}
  \cup (IF Len(st.fs) > 0 THEN {C("D", <<m, AbsP(p)>>) : m \in {"islink", "rdlink", "fe", "de", "full"}, p \in LP} ELSE {})
Cmds(st) == CASE Mode = "h" -> HCmds(st) [] Mode = "b" -> BCmds(st) [] Mode = "d" -> DCmds(st) [] Mode = "l" -> LCmds(st)
Do(st, e) == FsDo(st, e)
(* entries are in order, each inside a directory; an open file is there; no file is open for writing and open elsewhere; safe saving writes elsewhere *)
StateOK(st) ==
  /\ \A i \in 1..(Len(st.fs) - 1) : Cmp(st.fs[i].p, st.fs[i + 1].p) < 0
  /\ \A i \in 1..Len(st.fs) : st.fs[i].p # <<>> /\ Is(st.fs, Front1(st.fs[i].p), "d")
  /\ \A k \in Hs : LET h == st.h[k] IN IF Open(h) THEN Is(st.fs, h.p, "f") /\ h.pos >= 0 /\ (h.save # <<>> => h.p = Tmp(h.save) /\ h.mode = 2) ELSE h = Shut
  /\ (Open(st.h.f1) /\ Open(st.h.f2) => st.h.f1.p # st.h.f2.p \/ (st.h.f1.mode = 1 /\ st.h.f2.mode = 1))
Same1(fs, gs, P(_)) == SelC(P, fs) = SelC(P, gs)
Asks == {"g8", "gline", "gtok", "gpas", "gbuf", "seek", "end", "len", "swap", "flush"}
StepOK(st, e, o) == LET fs == st.fs gs == o.s.fs m == e.a[1] IN
  /\ (m # "gpas" /\ SameX(o.r, "refused") => o.s = st)
  /\ (e.op = "F" /\ m \in Asks => gs = fs)
  /\ (e.op = "F" => \A k \in Hs \ {e.a[2]} : o.s.h[k] = st.h[k])
  /\ (e.op = "F" /\ m \in {"s8", "s16", "spas", "sstr"} => Same1(fs, gs, LAMBDA x : x.p # st.h[e.a[2]].p) /\ (CanW(st.h[e.a[2]]) =>
       LET h == st.h[e.a[2]] bs == Utf8(IF m = "spas" THEN e.a[3] ELSE <<>>) back == FDo([o.s EXCEPT !.h[e.a[2]].pos = h.pos, !.h[e.a[2]].mode = 7], CASE m = "s8" -> "g8" [] m = "s16" -> "g16" [] m = "spas" -> "gpas" [] OTHER -> "len", e.a[2], <<>>) IN
       (m # "sstr" => back.r = e.a[3] /\ back.s.h[e.a[2]].pos = o.s.h[e.a[2]].pos)))
  (* until it is closed a safely written file is untouched, and closing puts it there whole *)
  /\ (e.op = "F" /\ m \in {"sstr", "flush"} /\ st.h[e.a[2]].save # <<>> => LET l == st.h[e.a[2]].save IN Ex(fs, l) = Ex(gs, l) /\ (Ex(fs, l) => Get(fs, l) = Get(gs, l)))
  /\ (e.op = "F" /\ m \in {"close", "drop"} /\ st.h[e.a[2]].save # <<>> => LET h == st.h[e.a[2]] IN ~Ex(gs, h.p) /\ Get(gs, h.save) = Get(fs, h.p) /\ Same1(fs, gs, LAMBDA x : x.p \notin {h.p, h.save}))
  /\ (e.op = "D" /\ m \in {"ls", "cwd", "cd", "fe", "de", "full", "islink", "rdlink"} => gs = fs)
  /\ (e.op = "D" /\ m = "rm" => IF o.r = "ok" THEN Len(gs) = Len(fs) - 1 /\ ~There(gs, LRes(gs, PathOf(st, e.a[2]))) ELSE gs = fs)
  /\ (e.op = "D" /\ m = "erase" /\ o.r = "ok" => Same1(fs, gs, LAMBDA x : ~Under(st.d, x.p)) /\ (IsD(fs, Rsv(fs, st.d)) => SelC(LAMBDA x : Under(st.d, x.p), gs) = <<>>))
  /\ (e.op = "D" /\ m \in {"mk", "mkr"} => \A i \in 1..Len(fs) : Ex(gs, fs[i].p) /\ Get(gs, fs[i].p) = Get(fs, fs[i].p))
  /\ (e.op = "D" /\ m = "ren" => (o.r = "failed" => gs = fs) /\ Len(gs) <= Len(fs) /\ (o.r = "ok" /\ LRes(fs, PathOf(st, e.a[2])) # LRes(fs, PathOf(st, e.a[3])) => ~Ex(gs, LRes(fs, PathOf(st, e.a[2])))))
  /\ (e.op = "D" /\ m = "cp" /\ o.r = "ok" => IsF(gs, Rsv(gs, PathOf(st, e.a[3]))) /\ Get(gs, Rsv(gs, PathOf(st, e.a[3]))).c = Get(fs, Rsv(fs, PathOf(st, e.a[2]))).c /\ Get(gs, Rsv(fs, PathOf(st, e.a[2]))) = Get(fs, Rsv(fs, PathOf(st, e.a[2]))))
  (* a copied tree has the same shape, and the original is as before *)
  /\ (e.op = "D" /\ m = "cpd" /\ o.r = "ok" => LET s == Rsv(fs, PathOf(st, e.a[2])) t == Rsv(gs, PathOf(st, e.a[3])) a == SelC(LAMBDA x : Under(s, x.p), fs) b == SelC(LAMBDA x : Under(t, x.p), gs) IN
       Len(a) = Len(b) /\ (\A i \in 1..Len(a) : SubSeq(a[i].p, Len(s) + 1, Len(a[i].p)) = SubSeq(b[i].p, Len(t) + 1, Len(b[i].p)) /\ (a[i].t # "l" => a[i].c = b[i].c)) /\ \A i \in 1..Len(fs) : Ex(gs, fs[i].p) /\ Get(gs, fs[i].p) = Get(fs, fs[i].p))
============================================================================
