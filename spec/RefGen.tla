------------------------------ MODULE RefGen ------------------------------
(* Small-scope exploration of reference histories: a few slots of given      *)
(* kinds, at most MaxObj objects ever created per class.                     *)
EXTENDS RefOps
CONSTANTS Kinds, Classes, MaxObj, MaxList
Names == <<"p", "q", "x", "y">>
C(op, a) == [op |-> op, a |-> a]
Used(st) == IF "u" \in DOMAIN st THEN st.u ELSE 0
Scal(s) == {k \in DOMAIN s : s[k].k \notin {"vec", "arr"}}
Lists(s) == DOMAIN s \ Scal(s)
Obj(s, o, k) == CountedIn(s, o, k)
Node(s, o, k) == NodeIn(s, o, k)
Plains(o) == {o[i].i : i \in {j \in 1..Len(o) : o[j].c = "Plain"}}
All(st) ==
  LET s == Sl(st) o == Ob(st) n == Cardinality(DOMAIN s) u == Used(st) IN
  IF n < Len(Kinds) THEN {C("R.new", <<Names[n + 1], Kinds[n + 1]>>)}
  ELSE
    (IF u < MaxObj THEN {C("R.make", <<k, c, u + 1, i>>) : k \in {k \in Scal(s) : TRUE}, c \in Classes \ {"Plain"}, i \in {TRUE, FALSE}} \cup (IF "Plain" \in Classes THEN {C("O.new", <<u + 1>>)} ELSE {}) ELSE {})
    \cup {C("R.set", <<k, l>>) : k \in Scal(s), l \in Scal(s)} \cup {C("R.raw", <<k, l>>) : k \in Scal(s), l \in {l \in Scal(s) : Obj(s, o, l)}}
    \cup {C("R.null", <<k>>) : k \in Scal(s)} \cup {C("R.swap", <<k, l>>) : k \in Scal(s), l \in Scal(s)}
    \cup {C("R.nset", <<k, l>>) : k \in {k \in Scal(s) : Node(s, o, k)}, l \in Scal(s)} \cup {C("R.nget", <<k, l>>) : k \in Scal(s), l \in {l \in Scal(s) : Node(s, o, l)}}
    \cup {C("R.mset", <<k, l>>) : k \in {k \in Scal(s) : Obj(s, o, k)}, l \in Scal(s)} \cup {C("R.mget", <<k, l>>) : k \in Scal(s), l \in {l \in Scal(s) : Obj(s, o, l)}}
    \cup {C("R.eq", <<k, l>>) : k \in Scal(s), l \in Scal(s)}
    \cup {C("L.push", <<k, l>>) : k \in {k \in Lists(s) : Len(s[k].d) < MaxList}, l \in Scal(s)}
    \cup UNION {{C("L.set", <<k, i, l>>) : i \in 0..(Len(s[k].d) - 1), l \in Scal(s)} : k \in Lists(s)}
    \cup UNION {{C("L.get", <<l, k, i>>) : i \in 0..(Len(s[k].d) - 1), l \in Scal(s)} : k \in Lists(s)}
    \cup UNION {{C("L.remove", <<k, i>>) : i \in 0..(Len(s[k].d) - 1)} : k \in Lists(s)} \cup {C("L.clear", <<k>>) : k \in Lists(s)}
    \cup {C("L.copy", <<k, l>>) : k \in {k \in Lists(s) : s[k].k = "vec"}, l \in {k \in Lists(s) : s[k].k = "vec"}}
    \cup {C(op, <<p>>) : op \in {"O.free", "O.nofree"}, p \in Plains(o)} \cup {C("O.var", <<k, p>>) : k \in {k \in Scal(s) : s[k].k = "var"}, p \in Plains(o)}
    \cup {C("O.mset", <<p, k>>) : p \in Plains(o), k \in Scal(s)}
Ok(st, e) == /\ (e.op = "R.swap" => Sl(st)[e.a[1]].k = Sl(st)[e.a[2]].k /\ e.a[1] # e.a[2])
             /\ (e.op = "R.make" => LET k == Sl(st)[e.a[1]].k c == e.a[2] IN IF k = "base" THEN c # "Oth" ELSE IF k = "der" THEN c = "Der" ELSE IF k = "oth" THEN c = "Oth" ELSE TRUE)
             /\ (e.op = "R.eq" => Sl(st)[e.a[1]].k = Sl(st)[e.a[2]].k)
Cmds(st) == {e \in All(st) : Ok(st, e)}
Do(st, e) == LET x == RDo(st, e) u == IF e.op = "R.make" THEN e.a[3] ELSE IF e.op = "O.new" THEN e.a[1] ELSE Used(st) IN
  Out([s |-> x.s.s, o |-> x.s.o, u |-> u], x.r)
(* nothing owned is dead, nothing alive is unowned, memories of freed objects are never of live ones *)
AllIds(st) == UNION {{Sl(st)[k].d[i] : i \in 1..Len(Sl(st)[k].d)} : k \in DOMAIN Sl(st)} \cup {Ob(st)[i].nx : i \in 1..Len(Ob(st))} \cup {Ob(st)[i].mt : i \in 1..Len(Ob(st))}
StateOK(st) == LET s == Sl(st) o == Ob(st) IN
  /\ \A id \in AllIds(st) : (id > 0 => Alive(o, id)) /\ (id < 0 => ~Alive(o, -id))
  /\ \A i \in 1..Len(o) : o[i].c = "Plain" \/ Owners(s, o, o[i].i) > 0
StepOK(st, e, o) == \A i \in 1..Len(Ob(st)) : Alive(o.s.o, Ob(st)[i].i) \/ (e.op = "O.free" \/ e.op \notin {"R.eq", "R.swap", "L.push", "R.cons"})
============================================================================
