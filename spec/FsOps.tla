------------------------------- MODULE FsOps -------------------------------
(* Files and directories.  A path is a sequence of names (numbers; n + 100   *)
(* is the name n with .tmp added) below a scratch root.  fs lists the        *)
(* entries in order of their paths: [p, t, c, m] with t "f" a file with      *)
(* bytes c and permissions m, "d" a directory, "l" a link to the path c.     *)
(* h: two file handles; d: the directory a DirAccess stands in; bk: files    *)
(* opened for writing appear only when closed.                               *)
EXTENDS StrOps, TLC
Shut == [p |-> <<>>, mode |-> 0, pos |-> 0, eof |-> FALSE, sw |-> FALSE, save |-> <<>>, dy |-> FALSE]
InitState == [fs |-> <<>>, h |-> [f1 |-> Shut, f2 |-> Shut], d |-> <<>>, bk |-> FALSE]
Ent(t, c, m) == [t |-> t, c |-> c, m |-> m]
DirE == Ent("d", <<>>, 0)
Front1(s) == SubSeq(s, 1, Len(s) - 1)
LastN(s) == s[Len(s)]
Get(fs, p) == IF p = <<>> THEN DirE ELSE CHOOSE e \in {Ent(fs[i].t, fs[i].c, fs[i].m) : i \in {i \in 1..Len(fs) : fs[i].p = p}} : TRUE
Ex(fs, p) == p = <<>> \/ \E i \in 1..Len(fs) : fs[i].p = p
Is(fs, p, t) == Ex(fs, p) /\ Get(fs, p).t = t
With(e, p) == [p |-> p, t |-> e.t, c |-> e.c, m |-> e.m]
RECURSIVE PutE(_, _)
PutE(fs, e) == IF fs = <<>> THEN <<e>> ELSE IF fs[1].p = e.p THEN <<e>> \o Tail(fs) ELSE IF Cmp(e.p, fs[1].p) < 0 THEN <<e>> \o fs ELSE <<fs[1]>> \o PutE(Tail(fs), e)
Put(fs, p, e) == PutE(fs, With(e, p))
Cut(fs, p) == SelC(LAMBDA e : e.p # p, fs)
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Kids(fs, p) == {i \in 1..Len(fs) : Len(fs[i].p) = Len(p) + 1 /\ Under(p, fs[i].p)}
(* --- following links: a path that may or may not exist, <<-1>> when something on the way is missing, <<-2>> when it is no directory (or links go round) *)
Miss == <<-1>>
NoDir == <<-2>>
BadP(p) == p = Miss \/ p = NoDir
RECURSIVE Walk(_, _, _, _, _)
Walk(fs, base, rest, fuel, last) == IF fuel = 0 THEN NoDir ELSE IF rest = <<>> THEN base ELSE LET nx == Append(base, rest[1]) IN
  IF ~Ex(fs, nx) THEN (IF Len(rest) = 1 THEN nx ELSE Miss)
  ELSE IF Is(fs, nx, "l") /\ (Len(rest) > 1 \/ last) THEN Walk(fs, <<>>, Get(fs, nx).c \o Tail(rest), fuel - 1, last)
  ELSE IF Is(fs, nx, "f") /\ Len(rest) > 1 THEN NoDir ELSE Walk(fs, nx, Tail(rest), fuel, last)
Rsv(fs, p) == Walk(fs, <<>>, p, 60, TRUE)        \* stat
LRes(fs, p) == Walk(fs, <<>>, p, 60, FALSE)      \* lstat
There(fs, p) == ~BadP(p) /\ Ex(fs, p)
IsF(fs, p) == There(fs, p) /\ Is(fs, p, "f")
IsD(fs, p) == There(fs, p) /\ Is(fs, p, "d")
IsL(fs, p) == There(fs, p) /\ Is(fs, p, "l")
Tmp(p) == Append(Front1(p), LastN(p) + 100)
Big(c) == c # <<>> /\ c[1] = -1
(* --- handles *)
Hs == {"f1", "f2"}
Open(h) == h.mode # 0
BusyX(st, p, but) == \E k \in Hs \ {but} : Open(st.h[k]) /\ (st.h[k].p = p \/ (st.h[k].save # <<>> /\ st.h[k].save = p))
Busy(st, p) == BusyX(st, p, "")
Writing(st, p, but) == \E k \in Hs \ {but} : st.h[k].mode > 1 /\ (st.h[k].p = p \/ (st.h[k].save # <<>> /\ st.h[k].save = p))
Held(st, p) == \E k \in Hs : st.h[k].dy /\ st.h[k].p = p
AnyOpen(st) == \E k \in Hs : Open(st.h[k])
CanR(h) == h.mode \in {1, 3, 7}
CanW(h) == h.mode \in {2, 3, 7}
Bytes1(st, h) == Get(st.fs, h.p).c
(* closing moves a safely written file into place *)
CloseFs(fs, h) == IF h.save = <<>> THEN fs ELSE Put(Cut(fs, h.p), h.save, Get(fs, h.p))
(* opening: the path behind the links, or why not *)
Target(st, p, mode) == IF st.bk /\ mode = 2 THEN LRes(st.fs, p) ELSE Rsv(st.fs, p)
IsBig(fs, q) == IsF(fs, q) /\ Big(Get(fs, q).c)
(* not opened here: files open elsewhere, except for reading together; large files *)
MayOpen(st, p, mode, but) == LET q == Target(st, p, mode) IN
  /\ (BusyX(st, q, but) => mode = 1 /\ ~Writing(st, q, but))
  /\ (st.bk /\ mode = 2 /\ ~BadP(q) /\ q # <<>> => LET t == Tmp(q) IN ~BusyX(st, t, but) /\ (Ex(st.fs, t) => Is(st.fs, t, "f") /\ ~IsBig(st.fs, t)))
OpenR(st, p, mode) == LET safe == st.bk /\ mode = 2 q == IF safe /\ ~IsD(st.fs, Rsv(st.fs, p)) THEN LRes(st.fs, p) ELSE Rsv(st.fs, p) IN IF q = Miss THEN "notfound" ELSE IF q = NoDir \/ IsD(st.fs, q) THEN "cantopen" ELSE IF mode \in {1, 3} /\ ~Ex(st.fs, q) THEN "notfound" ELSE "ok"
OpenSt(st, p, mode) == LET safe == st.bk /\ mode = 2 l == LRes(st.fs, p) q == IF safe THEN Tmp(l) ELSE Rsv(st.fs, p)
    fs2 == IF mode \in {1, 3} THEN st.fs ELSE IF Ex(st.fs, q) THEN Put(st.fs, q, [Get(st.fs, q) EXCEPT !.c = <<>>]) ELSE Put(st.fs, q, Ent("f", <<>>, 420)) IN
  [fs |-> fs2, h |-> [Shut EXCEPT !.p = q, !.mode = mode, !.save = IF safe THEN l ELSE <<>>]]
(* --- the byte file *)
Over(c, pos, bs) == LET d == IF Len(c) < pos THEN c \o Rep(<<0>>, pos - Len(c)) ELSE c IN SubSeq(d, 1, pos) \o bs \o SubSeq(d, pos + Len(bs) + 1, Len(d))
Ordr(h, bs) == IF h.sw THEN Rev(bs) ELSE bs
Rest(st, h) == IF CanR(h) THEN SubSeq(Bytes1(st, h), h.pos + 1, Len(Bytes1(st, h))) ELSE <<>>
(* n bytes from the cursor: what there is, the cursor behind it, whether the end was hit *)
Take(st, h, n) == LET b == Rest(st, h) g == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b)) IN [b |-> g, h |-> [h EXCEPT !.pos = @ + Len(g), !.eof = @ \/ (CanR(h) /\ Len(b) < n)]]
Zeros(b, n) == b \o Rep(<<0>>, n - Len(b))
RECURSIVE ValidU8(_), LineEnd(_, _)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
ValidU8(b) == IF b = <<>> THEN TRUE ELSE IF b[1] \in 1..127 THEN ValidU8(Tail(b)) ELSE IF b[1] \in 194..223 THEN Cont(b, 2) /\ ValidU8(SubSeq(b, 3, Len(b)))
  ELSE IF b[1] \in 224..238 /\ b[1] # 237 THEN Cont(b, 2) /\ Cont(b, 3) /\ (b[1] = 224 => b[2] >= 160) /\ ValidU8(SubSeq(b, 4, Len(b)))
  ELSE IF b[1] \in 241..243 THEN Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) /\ ValidU8(SubSeq(b, 5, Len(b))) ELSE FALSE
AnyText == "?"
TextOf(b) == IF ValidU8(b) THEN UnUtf8(b) ELSE AnyText
LineEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] \in {10, 0} THEN i ELSE LineEnd(b, i + 1)
NoCr(b) == SelC(LAMBDA c : c # 13, b)
Line(st, h) == LET b == Rest(st, h) i == LineEnd(b, 1) IN IF i > 0 THEN [b |-> NoCr(SubSeq(b, 1, i - 1)), h |-> [h EXCEPT !.pos = @ + i]] ELSE [b |-> NoCr(b), h |-> [h EXCEPT !.pos = @ + Len(b), !.eof = @ \/ CanR(h)]]
(* --- lists of texts in one line *)
Quo == 34
Quote(v, d) == IF \E i \in 1..Len(v) : v[i] \in {Quo, d, 10} THEN <<Quo>> \o Replace(v, <<Quo>>, <<Quo, Quo>>) \o <<Quo>> ELSE v
CsvOf(vs, d) == JoinS([i \in 1..Len(vs) |-> Quote(vs[i], d)], <<d>>) \o <<10>>
Quotes(s) == Cardinality({i \in 1..Len(s) : s[i] = Quo})
RECURSIVE Fields(_, _, _, _), CsvLines(_, _, _)
Fields(s, d, inq, cur) == IF s = <<>> THEN <<cur>> ELSE LET c == s[1] t == Tail(s) IN
  IF c = d /\ ~inq THEN <<cur>> \o Fields(t, d, inq, <<>>) ELSE IF c = Quo THEN (IF inq /\ t # <<>> /\ t[1] = Quo THEN Fields(Tail(t), d, inq, Append(cur, Quo)) ELSE Fields(t, d, ~inq, cur)) ELSE Fields(t, d, inq, Append(cur, c))
CsvLines(st, h, acc) == IF h.eof THEN [b |-> acc, h |-> h] ELSE LET l == Line(st, h) a == acc \o l.b \o <<10>> IN IF Quotes(a) % 2 = 1 THEN CsvLines(st, l.h, a) ELSE [b |-> a, h |-> l.h]
Blk(c) == c <= 32
SkipB(b) == LStrip(b, Blk)
RECURSIVE Word(_)
Word(b) == IF b = <<>> \/ Blk(b[1]) THEN <<>> ELSE <<b[1]>> \o Word(Tail(b))
Val4(b) == IF b[3] # 0 \/ b[4] # 0 \/ b[2] > 15 THEN 99999 ELSE b[1] + 256 * b[2]
Width == [s8 |-> 1, s16 |-> 2, s32 |-> 4, s64 |-> 8, sf |-> 4, sd |-> 8, sr |-> 8, g8 |-> 1, g16 |-> 2, g32 |-> 4, g64 |-> 8, gf |-> 4, gd |-> 8, gr |-> 8]
Le4(n) == <<n % 256, n \div 256, 0, 0>>
Out(st, r) == [s |-> st, r |-> r]
Ref1 == "refused"
StoreB(st, k, bs) == LET h == st.h[k] IN IF CanW(h) THEN Out([st EXCEPT !.fs = IF bs = <<>> THEN @ ELSE Put(@, h.p, [Get(@, h.p) EXCEPT !.c = Over(@, h.pos, bs)]), !.h[k].pos = @ + Len(bs), !.h[k].dy = @ \/ bs # <<>>], "ok") ELSE Out(st, "ok")
FDo(st, m, k, a) == LET h == st.h[k] Set(x, r) == Out([st EXCEPT !.h[k] = x], r) IN
  CASE m = "open" -> (LET st1 == [st EXCEPT !.fs = CloseFs(@, h), !.h[k] = Shut] r == OpenR(st1, a[1], a[2]) IN
         IF a[2] \notin {1, 2, 3, 7} THEN Out(st1, "invalid")
         ELSE IF ~MayOpen(st, a[1], a[2], k) \/ IsBig(st.fs, Target(st, a[1], a[2])) \/ IsBig(st.fs, Rsv(st.fs, a[1])) THEN Out(st, Ref1)
         ELSE IF r # "ok" THEN Out(st1, r) ELSE LET o == OpenSt(st1, a[1], a[2]) IN Out([st1 EXCEPT !.fs = o.fs, !.h[k] = o.h], "ok"))
    [] m \in {"close", "drop"} -> Out([st EXCEPT !.fs = CloseFs(@, h), !.h[k] = Shut], "ok")
    [] m = "swap" -> (IF Open(h) THEN Set([h EXCEPT !.sw = a[1]], "ok") ELSE Out(st, Ref1))
    [] m = "seek" -> Set(IF Open(h) THEN [h EXCEPT !.pos = a[1], !.eof = FALSE] ELSE h, "ok")
    [] m = "end" -> (IF Open(h) /\ Len(Bytes1(st, h)) + a[1] < 0 THEN Out(st, Ref1) ELSE Set(IF Open(h) THEN [h EXCEPT !.pos = Len(Bytes1(st, h)) + a[1], !.eof = FALSE] ELSE h, "ok"))
    [] m = "len" -> Out(st, IF Open(h) THEN Len(Bytes1(st, h)) ELSE 0)
    [] m = "flush" -> Set([h EXCEPT !.dy = FALSE], "ok")
    [] m = "path" -> (IF Open(h) THEN Out(st, "ok") ELSE Out(st, Ref1))
    [] m \in {"s8", "s16", "s32", "s64", "sf", "sd", "sr"} -> StoreB(st, k, Ordr(h, a[1]))
    [] m \in {"sbuf", "sbv"} -> StoreB(st, k, a[1]) [] m = "sstr" -> StoreB(st, k, Utf8(a[1])) [] m = "sline" -> StoreB(st, k, Utf8(a[1]) \o <<10>>)
    [] m = "spas" -> StoreB(st, k, Ordr(h, Le4(Len(Utf8(a[1])))) \o Utf8(a[1])) [] m = "scsv" -> StoreB(st, k, Utf8(CsvOf(a[1], a[2])))
    [] m \in {"g8", "g16", "g32", "g64", "gf", "gd", "gr"} -> (LET t == Take(st, h, Width[m]) IN Set(t.h, Ordr(h, Zeros(t.b, Width[m]))))
    [] m = "gbuf" -> (LET t == Take(st, h, a[1]) IN Set(t.h, IF Open(h) THEN t.b ELSE "none"))
    [] m = "gline" -> (LET l == Line(st, h) IN Set(l.h, TextOf(l.b)))
    [] m = "gcsv" -> (IF ~Open(h) THEN Out(st, <<<<>>>>) ELSE LET l == CsvLines(st, h, <<>>) b == IF l.b = <<>> THEN <<>> ELSE Front1(l.b) IN Set(l.h, IF ValidU8(b) THEN Fields(UnUtf8(b), a[1], FALSE, <<>>) ELSE AnyText))
    [] m = "gtok" -> (IF ~CanR(h) THEN Out(st, Ref1) ELSE LET b == Rest(st, h) s == SkipB(b) w == Word(s) hit == Len(w) = Len(s) IN Set([h EXCEPT !.pos = @ + (Len(b) - Len(s)) + Len(w) + (IF hit THEN 0 ELSE 1), !.eof = @ \/ hit], TextOf(w)))
    [] m = "gutf" -> (IF ~CanR(h) \/ h.pos # 0 THEN Out(st, Ref1) ELSE LET b == Bytes1(st, h) t == IF a[1] THEN NoCr(b) ELSE b IN Set([h EXCEPT !.pos = Len(b)], IF ValidU8(b) THEN UnUtf8(t) ELSE AnyText))
    [] m = "gpas" -> (IF ~CanR(h) THEN Out(st, Ref1) ELSE LET h1 == [h EXCEPT !.eof = FALSE] t == Take(st, h1, 4) n == Val4(Ordr(h, Zeros(t.b, 4))) u == Take(st, t.h, n) IN
         IF n > 4095 THEN Set(h1, Ref1) ELSE Set(u.h, TextOf(u.b)))
(* --- whole files *)
WriteTo(st, p, bs) == LET r == OpenR(st, p, 2) IN IF r # "ok" THEN Out(st, r) ELSE LET o == OpenSt(st, p, 2) f == Put(o.fs, o.h.p, [Get(o.fs, o.h.p) EXCEPT !.c = bs]) IN Out([st EXCEPT !.fs = CloseFs(f, o.h)], "ok")
NoWrite(st, p) == LET q == Target(st, p, 2) IN ~BadP(q) /\ q # <<>> /\ (Busy(st, q) \/ Busy(st, Tmp(q)) \/ ~MayOpen(st, p, 2, ""))
SDoF(st, m, p, a) == LET q == Rsv(st.fs, p) IN
  CASE m = "exists" -> Out(st, OpenR(st, p, 1) = "ok") [] m = "isfile" -> Out(st, IsF(st.fs, q))
    [] m = "read" -> (IF Held(st, q) THEN Out(st, Ref1) ELSE IF OpenR(st, p, 1) = "ok" THEN Out(st, Get(st.fs, q).c) ELSE Out(st, OpenR(st, p, 1)))
    [] m = "text" -> (IF Held(st, q) \/ IsBig(st.fs, q) THEN Out(st, Ref1) ELSE IF OpenR(st, p, 1) = "ok" THEN Out(st, TextOf(Get(st.fs, q).c)) ELSE Out(st, OpenR(st, p, 1)))
    [] m = "write" -> (IF NoWrite(st, p) THEN Out(st, Ref1) ELSE WriteTo(st, p, Utf8(a[1]))) [] m = "writeb" -> (IF NoWrite(st, p) THEN Out(st, Ref1) ELSE WriteTo(st, p, a[1]))
    [] m = "perm" -> (IF IsF(st.fs, q) THEN Out(st, Get(st.fs, q).m) ELSE Out(st, Ref1))
    [] m = "chmod" -> (IF IsF(st.fs, q) THEN Out([st EXCEPT !.fs = Put(@, q, [Get(@, q) EXCEPT !.m = a[1]])], "ok") ELSE IF There(st.fs, q) THEN Out(st, Ref1) ELSE Out(st, "failed"))
    [] m = "backup" -> Out([st EXCEPT !.bk = a[1]], "ok")
    [] m = "big" -> (IF AnyOpen(st) \/ BadP(q) \/ IsD(st.fs, q) \/ st.bk THEN Out(st, Ref1) ELSE Out([st EXCEPT !.fs = Put(@, q, Ent("f", <<-1, a[1]>>, IF Ex(st.fs, q) THEN Get(st.fs, q).m ELSE 420))], "ok"))
(* --- directories *)
PathOf(st, a) == IF "a" \in DOMAIN a THEN a.a ELSE st.d \o a.r
RECURSIVE Lex(_, _)
Lex(acc, p) == IF p = <<>> THEN acc ELSE IF p[1] = -1 THEN (IF acc = <<>> THEN NoDir ELSE Lex(Front1(acc), Tail(p))) ELSE Lex(Append(acc, p[1]), Tail(p))
MkDir(fs, p) == LET q == LRes(fs, p) IN IF There(fs, q) THEN [fs |-> fs, r |-> "exists"] ELSE IF BadP(q) \/ ~IsD(fs, Rsv(fs, Front1(p))) THEN [fs |-> fs, r |-> "cant"] ELSE [fs |-> Put(fs, q, DirE), r |-> "ok"]
RECURSIVE MkAll(_, _, _)
MkAll(fs, p, n) == IF n > Len(p) THEN [fs |-> fs, r |-> "ok"] ELSE LET g == MkDir(fs, SubSeq(p, 1, n)) IN IF g.r = "cant" THEN g ELSE MkAll(g.fs, p, n + 1)
Sub1(fs, p) == SelC(LAMBDA e : ~(e.p = p \/ Under(p, e.p)), fs)
RECURSIVE PutAll(_, _)
PutAll(fs, es) == IF es = <<>> THEN fs ELSE PutAll(PutE(fs, es[1]), Tail(es))
Move(fs, p, q) == LET es == SelC(LAMBDA e : e.p = p \/ Under(p, e.p), fs) IN PutAll(Sub1(Sub1(fs, p), q), [i \in 1..Len(es) |-> [es[i] EXCEPT !.p = q \o SubSeq(@, Len(p) + 1, Len(@))]])
Rename(fs, p, q) == LET s == LRes(fs, p) t == LRes(fs, q) no == [fs |-> fs, r |-> "failed"] IN
  IF ~There(fs, s) \/ BadP(t) \/ s = <<>> \/ t = <<>> THEN no ELSE IF s = t THEN [fs |-> fs, r |-> "ok"]
  ELSE IF Is(fs, s, "d") THEN (IF Under(s, t) \/ (Ex(fs, t) /\ (~Is(fs, t, "d") \/ Kids(fs, t) # {})) THEN no ELSE [fs |-> Move(fs, s, t), r |-> "ok"])
  ELSE IF Is(fs, t, "d") THEN no ELSE [fs |-> Move(fs, s, t), r |-> "ok"]
Remove(fs, p) == LET q == LRes(fs, p) IN IF ~There(fs, q) \/ q = <<>> \/ (Is(fs, q, "d") /\ Kids(fs, q) # {}) THEN [fs |-> fs, r |-> "failed"] ELSE [fs |-> Cut(fs, q), r |-> "ok"]
Listing(fs, p, skip) == LET q == Rsv(fs, p) ks == IF IsD(fs, q) THEN SelC(LAMBDA e : Len(e.p) = Len(q) + 1 /\ Under(q, e.p), fs) ELSE <<>>
    own == [i \in 1..Len(ks) |-> <<LastN(ks[i].p), IsD(fs, Rsv(fs, ks[i].p)), LastN(ks[i].p) \in {2, 102}, FALSE>>] IN
  IF skip \/ ~IsD(fs, q) THEN own ELSE <<<<-2, TRUE, FALSE, TRUE>>, <<-1, TRUE, FALSE, TRUE>>>> \o own
CopyF(st, p, q, m) == LET r == OpenR(st, p, 1) IN IF r # "ok" THEN Out(st, r) ELSE LET w == WriteTo(st, q, Get(st.fs, Rsv(st.fs, p)).c) t == Rsv(w.s.fs, q) IN
  IF w.r # "ok" \/ m = -1 THEN w ELSE Out([w.s EXCEPT !.fs = Put(@, t, [Get(@, t) EXCEPT !.m = m])], "ok")
RECURSIVE CopyT(_, _, _, _, _)
CopyT(st, es, n, q, ml) == IF es = <<>> THEN st ELSE LET e == es[1] t == q \o SubSeq(e.p, n + 1, Len(e.p)) IN
  CopyT(IF e.t = "d" THEN [st EXCEPT !.fs = Put(@, t, DirE)] ELSE IF e.t = "l" /\ ml[2] THEN [st EXCEPT !.fs = Put(@, t, [e EXCEPT !.p = t])] ELSE CopyF(st, e.p, t, ml[1]).s, Tail(es), n, q, ml)
CopyD(st, p, q, m, links) == LET s == Rsv(st.fs, p) t == Rsv(st.fs, q) es == SelC(LAMBDA e : Under(s, e.p), st.fs) mk == MkAll(st.fs, q, 1) IN
  IF ~IsD(st.fs, s) THEN Out(st, "notfound")
  ELSE IF IsD(st.fs, t) /\ (Kids(st.fs, t) # {} \/ t = s \/ Under(s, t) \/ Under(t, s)) THEN Out(st, Ref1)
  ELSE IF ~IsD(st.fs, t) /\ (There(st.fs, LRes(st.fs, q)) \/ mk.r # "ok" \/ Under(s, Rsv(mk.fs, q))) THEN Out(st, Ref1)
  ELSE IF ~links /\ \E i \in 1..Len(es) : es[i].t = "l" /\ ~IsF(st.fs, Rsv(st.fs, es[i].p)) THEN Out(st, Ref1)
  ELSE Out(CopyT([st EXCEPT !.fs = IF IsD(st.fs, t) THEN @ ELSE mk.fs], es, Len(s), Rsv(mk.fs, q), <<m, links>>), "ok")
Mutates == {"mk", "mkr", "ren", "rm", "erase", "cp", "cpd", "link"}
(* "." as it stands: the operating system refuses to rename, remove or make it, and looks through a link *)
NoDots == {"mk", "mkr", "ren", "rm", "islink", "rdlink"}
Dot(g) == IF "r" \in DOMAIN g THEN g.r = <<>> ELSE FALSE
DDo(st, m, a) == LET fs == st.fs p == IF Len(a) > 0 /\ m \notin {"ls", "erase", "cwd"} THEN PathOf(st, a[1]) ELSE <<>> q == Rsv(fs, p) Fs(o) == Out([st EXCEPT !.fs = o.fs], o.r) IN
  IF m \in Mutates /\ AnyOpen(st) THEN Out(st, Ref1) ELSE
  IF (m \in NoDots /\ Dot(a[1])) \/ (m \in {"link", "ren"} /\ Dot(a[2])) THEN Out(st, Ref1) ELSE
  CASE m = "mk" -> Fs(MkDir(fs, p)) [] m = "mkr" -> (LET l == LRes(fs, p) IN IF (There(fs, l) /\ ~IsD(fs, Rsv(fs, p))) \/ p = <<>> THEN Out(st, Ref1) ELSE Fs(MkAll(fs, p, 1)))
    [] m = "cd" -> (LET t == Lex(<<>>, p) IN IF t = NoDir THEN Out(st, Ref1) ELSE IF IsD(fs, Rsv(fs, t)) THEN Out([st EXCEPT !.d = t], "ok") ELSE Out(st, "invalid"))
    [] m = "fe" -> Out(st, There(fs, q) /\ ~IsD(fs, q)) [] m = "de" -> Out(st, IsD(fs, q)) [] m = "ex" -> Out(st, IsD(fs, q))
    [] m = "ren" -> (IF p = <<>> \/ PathOf(st, a[2]) = <<>> THEN Out(st, Ref1) ELSE Fs(Rename(fs, p, PathOf(st, a[2])))) [] m = "rm" -> (IF p = <<>> THEN Out(st, Ref1) ELSE Fs(Remove(fs, p)))
    [] m = "ls" -> Out(st, Listing(fs, st.d, a[1])) [] m = "erase" -> (IF There(fs, Rsv(fs, st.d)) /\ Rsv(fs, st.d) # st.d THEN Out(st, Ref1) ELSE Out([st EXCEPT !.fs = IF IsD(fs, Rsv(fs, st.d)) THEN SelC(LAMBDA e : ~Under(Rsv(fs, st.d), e.p), fs) ELSE fs], "ok"))
    [] m = "cp" -> (LET t == Target(st, PathOf(st, a[2]), 2) IN IF t = q \/ Rsv(fs, PathOf(st, a[2])) = q \/ (st.bk /\ ~BadP(t) /\ t # <<>> /\ (Tmp(t) = q \/ ~MayOpen(st, PathOf(st, a[2]), 2, ""))) THEN Out(st, Ref1) ELSE CopyF(st, p, PathOf(st, a[2]), a[3]))
    [] m = "cpd" -> (IF st.bk \/ p = <<>> \/ PathOf(st, a[2]) = <<>> \/ ~IsD(fs, Rsv(fs, st.d)) THEN Out(st, Ref1) ELSE CopyD(st, p, PathOf(st, a[2]), a[3], a[4]))
    [] m = "islink" -> Out(st, IsL(fs, LRes(fs, p))) [] m = "rdlink" -> Out(st, IF IsL(fs, LRes(fs, p)) THEN Get(fs, LRes(fs, p)).c ELSE "none")
    [] m = "link" -> (LET l == LRes(fs, PathOf(st, a[2])) IN IF PathOf(st, a[2]) = <<>> THEN Out(st, Ref1) ELSE IF BadP(l) \/ Ex(fs, l) THEN Out(st, "failed") ELSE Out([st EXCEPT !.fs = Put(@, l, Ent("l", p, 0))], "ok"))
    [] m = "cwd" -> Out(st, st.d) [] m = "full" -> (IF IsD(fs, q) THEN Out(st, p) ELSE Out(st, Ref1))
FsDo(st, e) == CASE e.op = "F" -> FDo(st, e.a[1], e.a[2], SubSeq(e.a, 3, Len(e.a))) [] e.op = "S" -> SDoF(st, e.a[1], e.a[2], SubSeq(e.a, 3, Len(e.a))) [] e.op = "D" -> DDo(st, e.a[1], SubSeq(e.a, 2, Len(e.a)))
(* what can be seen of it: not the bytes behind a handle that may still hold them *)
Seen(st) == [st EXCEPT !.fs = [i \in 1..Len(st.fs) |-> IF \E k \in Hs : st.h[k].dy /\ st.h[k].p = st.fs[i].p THEN [st.fs[i] EXCEPT !.c = "held"] ELSE st.fs[i]],
  !.h = [k \in Hs |-> [mode |-> st.h[k].mode, pos |-> st.h[k].pos, eof |-> st.h[k].eof]]]
============================================================================
