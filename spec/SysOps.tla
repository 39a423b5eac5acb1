------------------------------- MODULE SysOps -------------------------------
(* Internet addresses, connected byte streams and child processes. *)
EXTENDS Rl, FiniteSets
(* --- text of addresses, as code points --- *)
RECURSIVE Cut(_, _)
Cut(s, c) == IF ~\E i \in 1..Len(s) : s[i] = c THEN <<s>> ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c IN <<SubSeq(s, 1, i - 1)>> \o Cut(SubSeq(s, i + 1, Len(s)), c)
RECURSIVE Num(_, _)
HexV(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
Num(s, base) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1), base) * base + HexV(s[Len(s)])
Octet(s) == Len(s) \in 1..3 /\ (\A i \in 1..Len(s) : HexV(s[i]) < 10) /\ (Len(s) > 1 => s[1] # 48) /\ Num(s, 10) < 256
Bad == <<>>
V4(s) == LET p == Cut(s, 46) IN IF Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i]) THEN [i \in 1..4 |-> Num(p[i], 10)] ELSE Bad
Group(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexV(s[i]) < 16
Two(s) == <<Num(s, 16) \div 256, Num(s, 16) % 256>>
RECURSIVE Flat2(_)
Flat2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat2(Tail(ss))
(* a run of groups, possibly ending in a dotted address; <<-1>> when it is none *)
Run(s, dots) == IF s = <<>> THEN <<>> ELSE
   LET g == Cut(s, 58) n == Len(g) l == g[n] q == IF dots THEN V4(l) ELSE Bad IN
   IF (\A i \in 1..(n - 1) : Group(g[i])) /\ (Group(l) \/ q # Bad) THEN Flat2([i \in 1..(n - 1) |-> Two(g[i])]) \o (IF Group(l) THEN Two(l) ELSE q) ELSE <<-1>>
Gaps2(s) == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
V6(s) == LET G == Gaps2(s) IN
   IF Cardinality(G) > 1 THEN Bad ELSE IF G = {} THEN LET x == Run(s, TRUE) IN IF Len(x) = 16 THEN x ELSE Bad
   ELSE LET i == CHOOSE i \in G : TRUE a == Run(SubSeq(s, 1, i - 1), FALSE) b == Run(SubSeq(s, i + 2, Len(s)), TRUE) IN
        IF a = <<-1>> \/ b = <<-1>> \/ Len(a) + Len(b) > 14 THEN Bad ELSE a \o [k \in 1..(16 - Len(a) - Len(b)) |-> 0] \o b
Zero(n) == [i \in 1..n |-> 0]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Dotted(b) == Dec(b[1]) \o <<46>> \o Dec(b[2]) \o <<46>> \o Dec(b[3]) \o <<46>> \o Dec(b[4])
(* an address: its bytes (4 or 16), the port, and whether it stands for a real address *)
Mapped(b) == Len(b) = 16 /\ SubSeq(b, 1, 12) = Zero(10) \o <<255, 255>>
Local4(b) == b = <<127, 0, 0, 1>>
Private4(b) == b[1] = 10 \/ (b[1] = 172 /\ b[2] \in 16..31) \/ (b[1] = 192 /\ b[2] = 168)
Loopback(b) == IF Len(b) = 4 THEN Local4(b) ELSE b = Zero(15) \o <<1>> \/ (Mapped(b) /\ Local4(SubSeq(b, 13, 16)))
Intranet(b) == Loopback(b) \/ (IF Len(b) = 4 THEN Private4(b) ELSE (b[1] = 254 /\ b[2] >= 128 /\ (b[2] \div 64) \in {2, 3}) \/ (Mapped(b) /\ Private4(SubSeq(b, 13, 16))))
AdTextOk(b, t) == IF Len(b) = 4 THEN t = Dotted(b) ELSE V6(t) = b
AdGetOk(x, r) == LET b == x.b IN r[1] = (Len(b) = 16) /\ r[2] = (Len(b) = 16) /\ r[3] = b /\ r[4] = x.port /\ r[5] = x.port /\ AdTextOk(b, r[6]) /\ r[7] = r[6] \o <<58>> \o Dec(x.port) /\ r[8] = Intranet(b) /\ r[9] = Loopback(b) /\ r[10] = b /\ r[11] = x.un
(* --- byte streams.  A socket: what it is, its partner, bytes on their way to it, whether the partner has finished, whether it has finished itself --- *)
NoSock == [is |-> "none", peer |-> 0, rx |-> <<>>, fin |-> FALSE, shut |-> FALSE]
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Put(s, i, x) == [s EXCEPT ![i] = x]
ReadOk(x, n, r) == IF x.rx # <<>> THEN r[1] \in 1..n /\ r[1] = Len(r[2]) /\ Prefix(r[2], x.rx) /\ r[3] ELSE IF x.fin THEN r[1] = 0 /\ r[3] ELSE r[1] = -1
SendOk(x, b, r) == IF x.shut THEN r = -1 ELSE r \in 1..Len(b)
Leave(s, i) == LET p == s[i].peer IN IF p = 0 THEN Put(s, i, NoSock) ELSE Put(Put(s, i, NoSock), p, [s[p] EXCEPT !.fin = TRUE, !.peer = 0])
Opened(s) == Cardinality({i \in DOMAIN s : s[i].is # "none"})
(* --- child processes: a program that prints the lines it is given, then E on its error output, then ends in a given way --- *)
NoProc == [is |-> "idle", todo |-> <<>>, data |-> <<>>, code |-> 0, next |-> 0]
Out(ls, err) == [i \in 1..Len(ls) |-> ls[i] \o <<10>>] \o (IF err THEN <<<<69, 10>>>> ELSE <<>>)
CodeOk(want, c) == IF want < 0 THEN c # 0 ELSE c = want        \* -1: ended by a signal
=============================================================================
