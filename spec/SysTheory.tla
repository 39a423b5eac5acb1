------------------------------ MODULE SysTheory ------------------------------
(* Laws of the address texts, and the two-party stream protocol explored exhaustively. *)
EXTENDS SysOps
CONSTANTS N, Sent
VARIABLES b, s, got, put, on
(* addresses: b is a list of interesting bytes *)
Byte(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> 255 [] k = 3 -> 10 [] k = 4 -> 127 [] k = 5 -> 254 [] k = 6 -> 192 [] k = 7 -> 168 [] k = 8 -> 172 [] k = 9 -> 16 [] k = 10 -> 31 [] k = 11 -> 128 [] OTHER -> 99
TInit == b \in [1..4 -> 0..N] /\ s = <<>> /\ got = <<>> /\ put = <<>> /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<b, s, got, put>>
B == [i \in 1..4 |-> Byte(b[i])]
Hx(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<Hx(n)>> ELSE Hex(n \div 16) \o <<Hx(n % 16)>>
RECURSIVE Join(_)
Join(g) == IF Len(g) = 1 THEN Hex(g[1]) ELSE Hex(g[1]) \o <<58>> \o Join(Tail(g))
G8 == <<B[1] * 256 + B[2], 0, B[3], 0, 0, B[4], 1, B[1] * 256>>
By(g) == [i \in 1..16 |-> IF i % 2 = 1 THEN g[(i + 1) \div 2] \div 256 ELSE g[i \div 2] % 256]
Fours == on => V4(Dotted(B)) = B /\ V4(Dotted(B) \o <<46>>) = Bad /\ V4(<<48>> \o Dotted(B)) = Bad /\ V4(Dotted(B) \o <<46, 49>>) = Bad /\ (Loopback(B) => Intranet(B))
  /\ (Intranet(B) <=> Intranet(Zero(10) \o <<255, 255>> \o B)) /\ (Loopback(B) <=> Loopback(Zero(10) \o <<255, 255>> \o B)) /\ ~Intranet(Zero(9) \o <<1, 255, 255>> \o B)
(* the full and the shortened text stand for the same address; mixed text too *)
Sixes == on => V6(Join(G8)) = By(G8) /\ V6(Join(SubSeq(G8, 1, 3)) \o <<58, 58>> \o Join(SubSeq(G8, 6, 8))) = By(G8) /\ V6(Join(<<G8[1]>>) \o <<58, 58>> \o Join(SubSeq(G8, 3, 8))) = By(G8)
  /\ V6(<<58, 58>> \o Join(<<G8[1]>>)) = Zero(14) \o SubSeq(By(G8), 1, 2) /\ V6(Join(<<G8[1]>>) \o <<58, 58>>) = SubSeq(By(G8), 1, 2) \o Zero(14) /\ V6(<<58, 58>>) = Zero(16)
  /\ V6(<<58, 58, 102, 102, 102, 102, 58>> \o Dotted(B)) = Zero(10) \o <<255, 255>> \o B /\ V6(Join(SubSeq(G8, 1, 6)) \o <<58>> \o Dotted(B)) = SubSeq(By(G8), 1, 12) \o B
Texts == on => V6(Join(SubSeq(G8, 1, 7))) = Bad /\ V6(Join(G8 \o <<1>>)) = Bad /\ V6(Join(SubSeq(G8, 1, 3)) \o <<58, 58>> \o Join(SubSeq(G8, 4, 8))) = Bad /\ V6(Join(<<1>>) \o <<58, 58>> \o Join(<<1>>) \o <<58, 58>>) = Bad /\ V6(Dotted(B)) = Bad /\ V6(<<58>> \o Join(G8)) = Bad /\ V4(Join(G8)) = Bad
(* two connected sockets 1 and 2 (and an idle one): what is read is what was sent, in order; the end shows up exactly behind the last byte *)
SInit == b = <<>> /\ s = <<[NoSock EXCEPT !.is = "conn", !.peer = 2], [NoSock EXCEPT !.is = "conn", !.peer = 1], NoSock>> /\ got = <<<<>>, <<>>>> /\ put = <<<<>>, <<>>>> /\ on = TRUE
Other(i) == 3 - i
Send(i) == \E n \in 1..2 : Len(put[i]) + n <= Sent /\ ~s[i].shut /\ s[i].peer # 0 /\ LET x == [k \in 1..n |-> Len(put[i]) + k] IN
   \E m \in 1..n : SendOk(s[i], x, m) /\ s' = Put(s, Other(i), [s[Other(i)] EXCEPT !.rx = @ \o SubSeq(x, 1, m)]) /\ put' = Put(put, i, put[i] \o SubSeq(x, 1, m)) /\ UNCHANGED got
Read(i) == \E n \in 1..3, m \in 1..3 : s[i].is = "conn" /\ m <= Len(s[i].rx) /\ LET d == SubSeq(s[i].rx, 1, m) IN ReadOk(s[i], n, <<m, d, TRUE>>) /\ s' = Put(s, i, [s[i] EXCEPT !.rx = SubSeq(@, m + 1, Len(@))]) /\ got' = Put(got, i, got[i] \o d) /\ UNCHANGED put
Shut(i) == s[i].is = "conn" /\ ~s[i].shut /\ s' = (LET t == Put(s, i, [s[i] EXCEPT !.shut = TRUE]) IN IF s[i].peer = 0 THEN t ELSE Put(t, s[i].peer, [t[s[i].peer] EXCEPT !.fin = TRUE])) /\ UNCHANGED <<got, put>>
Close(i) == s[i].is = "conn" /\ s[i].rx = <<>> /\ s' = Leave(s, i) /\ UNCHANGED <<got, put>>
SNext == (\E i \in 1..2 : Send(i) \/ Read(i) \/ Shut(i) \/ Close(i)) /\ UNCHANGED <<b, on>>
Ordered == \A i \in 1..2 : /\ s[i].is = "conn" => got[i] \o s[i].rx = put[Other(i)]
                           /\ (s[i].is = "conn" /\ ReadOk(s[i], 1, <<0, <<>>, TRUE>>)) => (got[i] = put[Other(i)] /\ s[i].fin)
                           /\ (s[i].is = "conn" /\ s[i].fin) <=> (s[i].is = "conn" /\ (s[Other(i)].shut \/ s[Other(i)].is = "none"))
                           /\ Opened(s) = Cardinality({k \in 1..2 : s[k].is = "conn"})
=============================================================================
