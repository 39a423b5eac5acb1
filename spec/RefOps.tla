------------------------------ MODULE RefOps ------------------------------
(* Reference counting.  State: slots (name |-> [k |-> kind, d |-> ids]) and   *)
(* live objects (a sequence of [i |-> id, c |-> class, nx |-> id, mt |-> id]  *)
(* in creation order).  Id 0 is null, -id a Variant's memory of a plain       *)
(* object that has been freed.  A counted object lives while a slot, a live   *)
(* object's next field or a live object's metadata owns it.                   *)
EXTENDS Heap
Sl(st) == IF "s" \in DOMAIN st THEN st.s ELSE [x \in {} |-> 0]
Ob(st) == IF "o" \in DOMAIN st THEN st.o ELSE <<>>
Mk(s, o) == [s |-> s, o |-> o]
ObOf(o, id) == LET S == {i \in 1..Len(o) : o[i].i = id} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Alive(o, id) == ObOf(o, id) # 0
ClsOf(o, id) == o[ObOf(o, id)].c
VarLike == {"var", "arr"}
(* what a handle of this kind holds after being given object id *)
Fit(o, kind, id) ==
  IF id <= 0 THEN (IF kind \in VarLike THEN id ELSE 0)
  ELSE LET c == ClsOf(o, id) IN
    IF kind \in VarLike THEN id
    ELSE IF c = "Plain" THEN 0
    ELSE IF kind \in {"ref", "ptr"} THEN id
    ELSE IF kind \in {"base", "vec"} THEN (IF c \in {"Base", "Der"} THEN id ELSE 0)
    ELSE IF kind = "der" THEN (IF c = "Der" THEN id ELSE 0)
    ELSE (IF c = "Oth" THEN id ELSE 0)
CountIn(d, id) == Cardinality({i \in 1..Len(d) : d[i] = id})
RECURSIVE SumOver(_, _, _)
SumOver(s, K, id) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN CountIn(s[k].d, id) + SumOver(s, K \ {k}, id)
Owners(s, o, id) == SumOver(s, DOMAIN s, id) + Cardinality({i \in 1..Len(o) : o[i].nx = id}) + Cardinality({i \in 1..Len(o) : o[i].mt = id})
(* destroy what nobody owns, and what only they owned, ... *)
RECURSIVE Collect(_, _)
Collect(s, o) ==
  LET dead(x) == x.c # "Plain" /\ Owners(s, o, x.i) = 0 live == SelectSeq(o, LAMBDA x : ~dead(x)) IN
  IF Len(live) = Len(o) THEN o ELSE Collect(s, live)
Done(s, o) == Mk(s, Collect(s, o))
SetD(s, k, d) == [s EXCEPT ![k].d = d]
SetOb(o, id, f, v) == LET j == ObOf(o, id) IN [o EXCEPT ![j] = IF f = "nx" THEN [i |-> @.i, c |-> @.c, nx |-> v, mt |-> @.mt] ELSE [i |-> @.i, c |-> @.c, nx |-> @.nx, mt |-> v]]
(* a freed plain object: every Variant that held it knows *)
Lost(x, id) == IF x = id THEN -id ELSE x
Forget(s, o, id) ==
  LET s2 == [k \in DOMAIN s |-> [k |-> s[k].k, d |-> [i \in 1..Len(s[k].d) |-> Lost(s[k].d[i], id)]]]
      o1 == SelectSeq(o, LAMBDA x : x.i # id)
      o2 == [i \in 1..Len(o1) |-> [i |-> o1[i].i, c |-> o1[i].c, nx |-> o1[i].nx, mt |-> Lost(o1[i].mt, id)]]
  IN Done(s2, o2)
NodeIn(s, o, x) == s[x].d[1] > 0 /\ ClsOf(o, s[x].d[1]) \in {"Base", "Der"}
CountedIn(s, o, x) == s[x].d[1] > 0 /\ ClsOf(o, s[x].d[1]) # "Plain"
(* calls that need an object or an element do nothing when there is none *)
Applies(st, e) == LET s == Sl(st) o == Ob(st) a == e.a k == e.op IN
  CASE k = "R.nset" -> NodeIn(s, o, a[1]) [] k = "R.nget" -> NodeIn(s, o, a[2])
    [] k \in {"R.mset", "R.par"} -> CountedIn(s, o, a[1]) [] k \in {"R.mget", "R.raw"} -> CountedIn(s, o, a[2])
    [] k \in {"L.set", "L.remove"} -> a[2] < Len(s[a[1]].d) [] k = "L.get" -> a[3] < Len(s[a[2]].d)
    [] k \in {"O.free", "O.nofree", "O.mset"} -> Alive(o, a[1]) [] k = "O.var" -> Alive(o, a[2])
    [] OTHER -> TRUE
RDo(st, e) ==
  LET s == Sl(st) o == Ob(st) a == e.a k == e.op d == s[a[1]].d IN
  IF ~Applies(st, e) THEN Out(st, "none")
  ELSE CASE k = "R.new" -> Out(Mk(Put(s, a[1], [k |-> a[2], d |-> IF a[2] \in {"vec", "arr"} THEN <<>> ELSE <<0>>]), o), "ok")
    [] k = "R.make" -> LET o2 == Append(o, [i |-> a[3], c |-> a[2], nx |-> 0, mt |-> 0]) IN Out(Done(SetD(s, a[1], <<a[3]>>), o2), "ok")
    [] k = "R.set" -> Out(Done(SetD(s, a[1], <<Fit(o, s[a[1]].k, s[a[2]].d[1])>>), o), "ok")
    [] k = "R.raw" -> Out(Done(SetD(s, a[1], <<Fit(o, s[a[1]].k, s[a[2]].d[1])>>), o), "ok")
    [] k = "R.cons" -> Out(Done(Put(s, a[1], [k |-> a[3], d |-> <<Fit(o, a[3], s[a[2]].d[1])>>]), o), "ok")
    [] k = "R.null" -> Out(Done(SetD(s, a[1], <<0>>), o), "ok")
    [] k = "R.del" -> Out(Done([x \in DOMAIN s \ {a[1]} |-> s[x]], o), "ok")
    [] k = "R.swap" -> Out(Mk(SetD(SetD(s, a[1], s[a[2]].d), a[2], d), o), "ok")
    [] k = "R.nset" -> Out(Done(s, SetOb(o, d[1], "nx", Fit(o, "base", s[a[2]].d[1]))), "ok")
    [] k = "R.nget" -> Out(Done(SetD(s, a[1], <<Fit(o, s[a[1]].k, o[ObOf(o, s[a[2]].d[1])].nx)>>), o), "ok")
    [] k = "R.mset" -> Out(Done(s, SetOb(o, d[1], "mt", Fit(o, "var", s[a[2]].d[1]))), "ok")
    [] k = "R.mget" -> Out(Done(SetD(s, a[1], <<Fit(o, s[a[1]].k, o[ObOf(o, s[a[2]].d[1])].mt)>>), o), "ok")
    [] k = "R.eq" -> Out(st, <<d[1] = s[a[2]].d[1], d[1] > 0>>)
    [] k = "R.par" -> Out(st, "ok")
    [] k = "L.push" -> Out(Done(SetD(s, a[1], Append(d, Fit(o, s[a[1]].k, s[a[2]].d[1]))), o), "ok")
    [] k = "L.set" -> Out(Done(SetD(s, a[1], SetAt(d, a[2], Fit(o, s[a[1]].k, s[a[3]].d[1]))), o), "ok")
    [] k = "L.get" -> Out(Done(SetD(s, a[1], <<Fit(o, s[a[1]].k, s[a[2]].d[a[3] + 1])>>), o), "ok")
    [] k = "L.remove" -> Out(Done(SetD(s, a[1], RemoveIdx(d, a[2])), o), "ok")
    [] k = "L.clear" -> Out(Done(SetD(s, a[1], <<>>), o), "ok")
    [] k = "L.copy" -> Out(Done(SetD(s, a[1], s[a[2]].d), o), "ok")
    [] k = "O.new" -> Out(Mk(s, Append(o, [i |-> a[1], c |-> "Plain", nx |-> 0, mt |-> 0])), "ok")
    [] k = "O.free" -> Out(Forget(s, o, a[1]), "gone")
    [] k = "O.nofree" -> Out(st, "kept")
    [] k = "O.var" -> Out(Done(SetD(s, a[1], <<a[2]>>), o), "ok")
    [] k = "O.mset" -> Out(Done(s, SetOb(o, a[1], "mt", Fit(o, "var", s[a[2]].d[1]))), "ok")
============================================================================
