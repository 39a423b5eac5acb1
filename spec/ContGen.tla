------------------------------ MODULE ContGen ------------------------------
(* Small-scope exploration of the containers: two instances of one kind,     *)
(* every call on each.  "~" remembers what the abstract content does not     *)
(* determine but the concrete layout may depend on: whether the two share    *)
(* storage, or (trees, hashes, rings) the order the keys came in.            *)
EXTENDS ContSpec
CONSTANTS Kind, Vals, MaxLen
C(f, v, x) == [op |-> "Q", a |-> <<v, f>> \o x]
Ghost(st) == IF "~" \in DOMAIN st THEN st["~"] ELSE <<>>
Two == {"a", "b"}
Oth(v) == IF v = "a" THEN "b" ELSE "a"
One(fs, v) == {C(f, v, <<>>) : f \in fs}
Val1(fs, v) == {C(f, v, <<x>>) : f \in fs, x \in Vals}
Ix1(fs, v, S) == {C(f, v, <<i>>) : f \in fs, i \in S}
IxV(fs, v, S) == {C(f, v, <<i, x>>) : f \in fs, i \in S, x \in Vals}
SeqCmds(st, v) ==
  LET d == st[v].d n == Len(d) w == Oth(v) in == 0..(n - 1) any == -1..(MaxLen + 1) grow == n < MaxLen k == Kind
      common == (IF grow THEN Val1({"push"}, v) ELSE {}) \cup One({"invert", "sort", "clear", "empty"}, v) \cup Ix1({"get"}, v, in) \cup IxV({"set"}, v, in)
  IN common
  \cup (IF k \in VecK \cup PoolK THEN
          (IF grow THEN IxV({"insert"}, v, any) ELSE {}) \cup Ix1({"remove"}, v, any) \cup IxV({"wset"}, v, in) \cup Val1({"fill"}, v)
          \cup Ix1({"resize"}, v, -1..MaxLen) \cup {C("find", v, <<x, i>>) : x \in Vals, i \in any}
          \cup (IF n + Len(st[w].d) <= MaxLen THEN {[op |-> "Q.append", a |-> <<v, w>>]} ELSE {}) \cup (IF 2 * n <= MaxLen THEN {[op |-> "Q.append", a |-> <<v, v>>]} ELSE {}) ELSE {})
  \cup (IF k \in VecK THEN Val1({"erase"}, v) \cup IxV({"pset"}, v, in) \cup Ix1({"selffill"}, v, in) \cup {C("selfset", v, <<i, j>>) : i \in in, j \in in}
          \cup (IF grow THEN Val1({"oins"}, v) ELSE {}) \cup {C("slice", v, <<i, j>>) : i \in -3..3, j \in -3..4} \cup Ix1({"slice"}, v, -3..3) ELSE {})
  \cup (IF k \in PoolK THEN {C(f, v, <<x, i>>) : f \in {"rfind"}, x \in Vals, i \in any} \cup Val1({"count"}, v) \cup {C("sub", v, <<i, j>>) : i \in -3..3, j \in -3..3}
          \cup IxV({"pset"}, v, {-1, n, n + 1}) \cup Ix1({"locked"}, v, (0..MaxLen) \ {n}) \cup IxV({"snap"}, v, in) ELSE {})
  \cup (IF k \in LocK THEN (IF grow THEN IxV({"insert"}, v, 0..(MaxLen + 1)) \cup Val1({"oins"}, v) ELSE {}) \cup Ix1({"remove", "removeu"}, v, 0..(n + 1))
          \cup Val1({"erase", "erasem", "fill"}, v) \cup IxV({"pset"}, v, in) \cup Ix1({"resize", "reserve"}, v, 0..MaxLen) \cup {C("find", v, <<x, i>>) : x \in Vals, i \in 0..(n + 1)} \cup One({"reset"}, v) ELSE {})
  \cup (IF k \in ListK THEN (IF grow THEN Val1({"pushf"}, v) \cup IxV({"insa", "insb"}, v, 0..n) ELSE {}) \cup One({"popf", "popb", "sorti", "sortd"}, v) \cup Ix1({"remove", "erasea", "tob", "tof"}, v, in)
          \cup Val1({"erase", "find"}, v) \cup {C("before", v, <<i, j>>) : i \in in, j \in {-1} \cup in} \cup {C("swap", v, <<i, j>>) : i \in in, j \in in} ELSE {})
KV == {<<x, 1>> : x \in Vals} \cup {<<x, 2>> : x \in Vals}
MapCmds(st, v) ==
  LET d == st[v].d n == Len(d) k == Kind isset == Kind \in SetK keys == {d[i][1] : i \in 1..n} room == {x \in Vals : x \in keys \/ n < MaxLen} IN
  (IF isset THEN {C("ins", v, <<x>>) : x \in room} ELSE {C(f, v, <<x, y>>) : f \in {"ins", "ref"}, x \in room, y \in {1, 2}} \cup {C("touch", v, <<x>>) : x \in room})
  \cup Val1({"has", "erase", "get"}, v) \cup One({"size"}, v)
  \cup (IF k \in {"rbmap", "rbset"} THEN Ix1({"erasea"}, v, 0..(n - 1)) \cup {C("step", v, <<x>>) : x \in keys} \cup One({"balanced", "clear"}, v) ELSE {})
  \cup (IF k = "rbmap" THEN Val1({"near"}, v) \cup {C("near", v, <<0>>)} ELSE {})
  \cup (IF k = "rbset" THEN Val1({"lower"}, v) \cup {C("lower", v, <<0>>)} ELSE {})
  \cup (IF k = "vmap" THEN Val1({"nearest"}, v) \cup {C("nearest", v, <<0>>)} \cup {C("vset", v, <<i, 2>>) : i \in 0..(n - 1)} ELSE {})
  \cup (IF k \notin SortedK \cup HsK THEN {C("step", v, <<x>>) : x \in keys} ELSE {})
  \cup (IF k \in {"hmap", "hmap.c", "hmap.0"} THEN {C("insf", v, <<x, 2>>) : x \in room} ELSE {})
  \cup (IF k \in {"ohash", "ohash.c"} THEN Val1({"erasee"}, v) ELSE {})
  \cup (IF k \in HsK THEN Val1({"remove"}, v) \cup One({"reset"}, v) ELSE {})
  \cup (IF k \in HsK \cup {"hmap", "hmap.c", "hmap.0"} THEN Ix1({"reserve"}, v, {0, 40}) ELSE {})
  \cup (IF k \notin {"rbmap", "rbset", "vmap", "vset"} THEN One({"clear"}, v) ELSE {})
RingCmds(st, v) ==
  LET n == Len(st[v].d) p == st[v].p IN
  Val1({"write"}, v) \cup {C("writen", v, <<x>>) : x \in {<<>>, <<1>>, <<1, 2>>, <<2, 1, 1>>}} \cup One({"read", "clear"}, v)
  \cup {C("readn", v, <<m, b>>) : m \in 0..4, b \in {TRUE, FALSE}} \cup {C("copy", v, <<i, m>>) : i \in 0..4, m \in 0..4}
  \cup {C("find", v, <<x, i, m>>) : x \in Vals, i \in 0..4, m \in 0..4} \cup Ix1({"adv", "dec"}, v, 0..3)
  \cup {C("resize", v, <<q>>) : q \in {q \in 0..2 : Cap(q) >= n}}
AllCmds(st0) ==
  LET st == Without(st0, "~") IN
  IF ~Has(st, "a") THEN {[op |-> "Q.new", a |-> IF Kind = "ring" THEN <<"a", Kind, 2>> ELSE <<"a", Kind>>]}
  ELSE IF ~Has(st, "b") /\ Kind \in VecK \cup PoolK THEN {[op |-> "Q.copy", a |-> <<"b", "a">>]} \cup SeqCmds(st @@ ("b" :> st["a"]), "a")
  ELSE IF Kind \in VecK \cup PoolK THEN SeqCmds(st, "a") \cup SeqCmds(st, "b") \cup {[op |-> "Q.assign", a |-> <<v, w>>] : v \in Two, w \in Two} \cup {[op |-> "Q.del", a |-> <<"b">>]}
  ELSE IF Has(st, "b") THEN {[op |-> "Q.assign", a |-> <<"b", "a">>], [op |-> "Q.assign", a |-> <<"a", "b">>], [op |-> "Q.del", a |-> <<"a">>]} \cup
         (IF st["a"] # st["b"] THEN {} ELSE IF Kind = "ring" THEN RingCmds(st, "b") ELSE IF Kind \in SeqK THEN SeqCmds(st, "b") ELSE MapCmds(st, "b"))
  ELSE {[op |-> "Q.copy", a |-> <<"b", "a">>], [op |-> "Q.assign", a |-> <<"a", "a">>]} \cup
         (IF Kind = "ring" THEN RingCmds(st, "a") ELSE IF Kind \in SeqK THEN SeqCmds(st @@ ("b" :> st["a"]), "a") ELSE MapCmds(st, "a"))
Reads == {"find", "rfind", "count", "slice", "sub", "get", "empty"}
Cmds(st) == {e \in AllCmds(st) : (e.op = "Q.append" => Has(st, e.a[2])) /\ (e.op = "Q" /\ e.a[2] \in Reads => e.a[1] = "a" \/ Kind \notin VecK \cup PoolK)}
Writes == {"push", "pushf", "popf", "popb", "insa", "insb", "remove", "erasea", "removeu", "erase", "erasem", "insert", "set", "wset", "pset", "selfset", "resize", "locked", "snap", "fill",
           "selffill", "invert", "sort", "sorti", "sortd", "oins", "tob", "tof", "before", "swap", "clear", "reset", "ins", "insf", "ref", "touch", "vset", "erasee", "reserve",
           "write", "writen", "adv", "dec"}
Mod(a, b) == a % b
Do(st0, e) ==
  LET st == Without(st0, "~") o == CDo(st, e) g == Ghost(st0)
      mut == e.op = "Q" /\ e.a[2] \in Writes
      ng == IF Kind \in VecK \cup PoolK THEN
               (IF e.op \in {"Q.copy", "Q.assign"} THEN <<"shared">> ELSE IF mut \/ e.op \in {"Q.del", "Q.append"} THEN <<>> ELSE g)
            ELSE IF Kind = "ring" THEN \* where reading starts
               (IF e.op = "Q" THEN (LET q == Len(st[e.a[1]].d) - Len(o.s[e.a[1]].d) r == IF g = <<>> THEN 0 ELSE g[1] IN
                    IF e.a[2] = "read" \/ e.a[2] = "adv" \/ e.a[2] = "readn" THEN <<Mod(r + q, Cap(st[e.a[1]].p) + 1)>> ELSE IF e.a[2] = "clear" THEN <<0>> ELSE IF e.a[2] = "resize" THEN (IF r = 0 THEN <<0>> ELSE <<8>>) ELSE g) ELSE g)
            ELSE g
  IN Out(Put(o.s, "~", ng), o.r)
(* ---- design properties ---- *)
StateOK(st0) == LET st == Without(st0, "~") IN \A v \in DOMAIN st : LET d == st[v].d IN
   IF Kind = "ring" THEN Len(d) + st[v].left = Cap(st[v].p)
   ELSE IF Kind \in SeqK THEN \A i \in 1..(Len(d) - 1) : Sorted(d)[i] <= Sorted(d)[i + 1]
   ELSE /\ \A i, j \in 1..Len(d) : i # j => d[i][1] # d[j][1]
        /\ (Kind \in SortedK => \A i \in 1..(Len(d) - 1) : d[i][1] < d[i + 1][1])
StepOK(st0, e, o) == LET st == Without(st0, "~") IN \A v \in DOMAIN st : v # e.a[1] => Has(o.s, v) /\ o.s[v] = st[v]
=========================================================================
