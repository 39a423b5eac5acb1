----------------------------- MODULE FsTheory ------------------------------
(* Lists of texts survive being written as a line and read again; so do      *)
(* single lines; what is written at a place is what is read there.           *)
EXTENDS FsOps
CONSTANTS Chars, N, M
VARIABLES vs, on
Texts == UNION {[1..n -> Chars] : n \in 0..N}
TInit == vs \in UNION {[1..n -> Texts] : n \in 1..M} /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED vs
Handle(c) == LET st == [InitState EXCEPT !.fs = << [p |-> <<0>>, t |-> "f", c |-> c, m |-> 420] >>] IN [st EXCEPT !.h.f1 = [Shut EXCEPT !.p = <<0>>, !.mode = 1]]
Csv == on => \A d \in {44, 59} : LET b == Utf8(CsvOf(vs, d)) st == Handle(b \o <<120, 10>>) o == FDo(st, "gcsv", "f1", <<d>>) IN o.r = vs /\ o.s.h.f1.pos = Len(b) /\ ~o.s.h.f1.eof
Lines == on /\ (\A i \in 1..Len(vs) : ~\E k \in 1..Len(vs[i]) : vs[i][k] = 10) =>
  LET b == Utf8(JoinS(vs, <<10>>)) RECURSIVE Go(_, _) Go(st, i) == IF i > Len(vs) THEN st.h.f1.eof ELSE LET o == FDo(st, "gline", "f1", <<>>) IN o.r = vs[i] /\ Go(o.s, i + 1) IN Go(Handle(b), 1)
PlaceOk == on => LET a == Utf8(vs[1]) b == Utf8(LastN(vs)) IN \A p \in 0..(Len(a) + 1) : LET c == Over(a, p, b) IN
  b # <<>> => SubSeq(c, p + 1, p + Len(b)) = b /\ SubSeq(c, 1, IF p < Len(a) THEN p ELSE Len(a)) = SubSeq(a, 1, IF p < Len(a) THEN p ELSE Len(a)) /\ Len(c) = (IF Len(a) > p + Len(b) THEN Len(a) ELSE p + Len(b))
============================================================================
