------------------------------- MODULE ImgGen ------------------------------
(* Small-scope exploration: "e" edits of one image, "b" two images.         *)
EXTENDS ImgOps
CONSTANTS Mode
C(a) == [op |-> "I", a |-> a]
P1 == <<10, 200, 30, 255>>
P2 == <<255, 0, 4, 0>>
P3 == <<0, 90, 250, 128>>
Red == <<U, 0, 0, U>>
Dim == <<3100, 62000, 31000, 31000>>
Mk(k, x, d) == C(<<"data", k, x, d>>)
ECmds(st) == LET g == st.i1 IN {Mk("i1", <<2, 1, FALSE, 5>>, P1 \o P2), Mk("i1", <<3, 2, FALSE, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>), Mk("i1", <<2, 2, TRUE, 6>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 1, 1, 1>>)}
  \cup (IF g.d = <<>> THEN {} ELSE {C(<<m, "i1">>) : m \in {"flipx", "flipy", "shrink", "genmm", "clrmm", "lock", "unlock", "used", "alpha", "invis", "chan", "premul", "edges", "info"}} \cup {C(<<"conv", "i1", f>>) : f \in {0, 1, 3, 5, 7}}
  \cup {C(<<"set", "i1", <<1, 0>>, c, FALSE>>) : c \in {Red, Dim}} \cup {C(<<"set", "i1", <<3, 0>>, Red, FALSE>>), C(<<"get", "i1", <<1, 0>>>>), C(<<"fillr", "i1", <<1, -1, 4, 2>>, Dim>>), C(<<"crop", "i1", <<0, 0, 2, 2>>, TRUE>>), C(<<"crop", "i1", <<1, 0, 1, 1>>, FALSE>>)}
  \cup {C(<<"resize", "i1", <<w, 2, i>>>>) : w \in {1, 3}, i \in {0, 1}})
Rs == {<<0, 0, 2, 2>>, <<-1, 0, 3, 1>>, <<1, 1, 5, 5>>}
Ds == {<<0, 0>>, <<-1, 0>>, <<1, 1>>, <<0, -1>>}
BCmds(st) == {Mk("i1", <<2, 2, FALSE, 5>>, P1 \o P2 \o P3 \o P1), Mk("i2", <<2, 2, FALSE, 5>>, P3 \o P3 \o P2 \o P1), Mk("i2", <<3, 1, FALSE, 5>>, P1 \o P2 \o P3), Mk("i3", <<2, 2, FALSE, 1>>, <<1, 1, 1, 0, 1, 0, 1, 9>>)}
  \cup (IF st.i1.d = <<>> THEN {} ELSE {C(<<"getrect", "i1", k, r>>) : k \in {"i1", "i3"}, r \in Rs} \cup {C(<<"copyto", "i1", "i2">>), C(<<"lock", "i1">>), C(<<"unlock", "i1">>), C(<<"clear", "i1">>)})
  \cup (IF st.i1.d = <<>> \/ st.i2.d = <<>> THEN {} ELSE {C(<<m, "i1", "i2", k, r, d>>) : m \in {"blit", "blend"}, k \in {"i3"}, r \in Rs, d \in Ds} \cup {C(<<m, "i1", "i2", "i3", r, <<0, 0>>>>) : m \in {"blitm", "blendm"}, r \in Rs})
Cmds(st) == IF Mode = "e" THEN ECmds(st) ELSE BCmds(st)
Do(st, e) == ImgDo(st, e, 0)
StateOK(st) == \A k \in Ks : LET g == st[k] IN g.f \in 0..11 /\ (g.d = <<>> \/ (DimOk(g.w, g.h, g.f) /\ Len(g.d) = Size(g.w, g.h, g.f, g.mm))) /\ \A i \in 1..Len(g.d) : g.d[i] >= Bot(g.f) /\ g.d[i] <= Top(g.f, (((i - 1) % Ch(g.f)) + 1))
Asks == {"used", "alpha", "invis", "chan", "get", "info"}
Into1(e) == IF e.a[1] \in {"copyto", "getrect"} THEN e.a[3] ELSE e.a[2]
Around(a, b, x0, y0, x1, y1) == \A y \in 0..(a.h - 1), x \in 0..(a.w - 1) : (x < x0 \/ y < y0 \/ x >= x1 \/ y >= y1) => PxAt(a, x, y) = PxAt(b, x, y)
StepOK(st, e, o) == LET m == e.a[1] k == Into1(e) g == st[k] h == o.s[k] IN
  /\ \A j \in Ks \ {k} : o.s[j] = st[j]
  /\ (m \in Asks => o.s = st)
  /\ (g.lk /\ m # "unlock" => h.w = g.w /\ h.h = g.h /\ h.f = g.f /\ h.lk)
  /\ (m \in {"flipx", "flipy"} /\ ~g.lk /\ g.d # <<>> => Flip(h, m = "flipx", m = "flipy") = Again(NoMm(g), g.mm) \/ Packed(g.f))
  /\ (m = "set" /\ In(g, e.a[3][1], e.a[3][2]) => PxAt(h, e.a[3][1], e.a[3][2]) = PxOf(g.f, e.a[4]) /\ (LET c == ColAt(h, e.a[3][1], e.a[3][2]) IN PxOf(g.f, c) = PxAt(h, e.a[3][1], e.a[3][2])))
  /\ (m = "conv" => h.w = g.w /\ h.h = g.h /\ (g.lk \/ (h.f = e.a[3] /\ (h.f = 5 /\ g.f # 7 /\ g.f < 6 => \A y \in 0..(g.h - 1), x \in 0..(g.w - 1) : ColAt(h, x, y) = ColAt(g, x, y)))))
  /\ (m \in {"blit", "blend"} /\ g.d # <<>> => Around(g, h, e.a[6][1], e.a[6][2], e.a[6][1] + e.a[5][3], e.a[6][2] + e.a[5][4]))
  /\ (m = "crop" /\ ~g.lk => h.w = e.a[3][3] /\ h.h = e.a[3][4])
  /\ (m = "genmm" /\ o.r = 0 => h.mm /\ Base(h) = Base(g))
============================================================================
