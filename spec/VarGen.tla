------------------------------ MODULE VarGen ------------------------------
(* Small-scope exploration: which values share a container, and what a      *)
(* change through one of them does to the others.                           *)
EXTENDS VarOps
CONSTANTS MaxH, MaxL, Kinds
C(op, a) == [op |-> op, a |-> a]
X == {"x1", "x2", "x3"}
IsA(st, x) == Ty(st.x[x]) = "a"
IsD(st, x) == Ty(st.x[x]) = "d"
Room(st, x) == Len(El(st.h, st.x[x])) < MaxL
Ref(x) == [x |-> x]
Vals0 == {I(1)} \cup {Ref(x) : x \in X}
Cur(st) == {x \in X : IsA(st, x)}
CurD(st) == {x \in X : IsD(st, x)}
Kind(k) == k \in Kinds
Cmds(st) == LET full == Len(st.h) >= MaxH IN
  (IF full THEN {} ELSE {C("newa", <<x>>) : x \in X} \cup (IF Kind("d") THEN {C("newd", <<x>>) : x \in X} ELSE {}))
  \cup {C("copy", <<x, y>>) : x \in X, y \in X}
  \cup UNION {{C("A", <<"push", "", x, v>>) : v \in Vals0} : x \in {x \in Cur(st) : Room(st, x)}}
  \cup UNION {{C("A", <<"pop_back", y, x>>) : y \in X} \cup {C("A", <<"clear", "", x>>)} : x \in {x \in Cur(st) : Len(El(st.h, st.x[x])) > 0}}
  \cup UNION {{C("A", <<"set", "", x, I(0), v>>) : v \in Vals0} \cup {C("V", <<"get", y, x, I(-1)>>) : y \in X} : x \in {x \in Cur(st) : Len(El(st.h, st.x[x])) > 0}}
  \cup (IF full THEN {} ELSE {C("V", <<"dup", y, x, B(d)>>) : y \in X, x \in Cur(st) \cup CurD(st), d \in BOOLEAN} \cup {C("A", <<"slice", y, x, I(0), I(1), I(1), B(d)>>) : y \in X, x \in Cur(st), d \in BOOLEAN})
  \cup UNION {{C("A", <<"append", "", x, Ref(y)>>) : y \in {y \in Cur(st) : Len(El(st.h, st.x[y])) + Len(El(st.h, st.x[x])) <= MaxL}} : x \in Cur(st)}
  \cup UNION {{C("D", <<"set", "", x, I(k), v>>) : k \in {0, 1}, v \in Vals0} \cup {C("D", <<"erase", "", x, I(0)>>)} \cup {C("D", <<"at", y, x, I(0)>>) : y \in X} : x \in CurD(st)}
  \cup {C("D", <<"merge", "", x, Ref(y), B(o)>>) : x \in CurD(st), y \in CurD(st), o \in BOOLEAN}
  \cup (IF full THEN {} ELSE {C("D", <<"values", y, x>>) : y \in X, x \in CurD(st)})
Do(st, e) == VDo(st, e)
(* no container ever holds itself; every one that exists can be reached; keys are unique *)
StateOK(st) == /\ \A i \in 1..Len(st.h) : ~\E j \in 1..Len(Held(st.h[i])) : Reaches(st.h, Held(st.h[i])[j], i)
  /\ Len(Reach(st.h, AddRefs(<<>>, Slots(st.x)), 1)) = Len(st.h)
  /\ \A i \in 1..Len(st.h) : st.h[i].t = "d" => \A j, k \in 1..Len(st.h[i].c) : st.h[i].c[j][1] = st.h[i].c[k][1] => j = k
StepOK(st, e, o) ==
  /\ (e.op = "copy" => o.s.x[e.a[1]] = o.s.x[e.a[2]])
  /\ (e.op \in {"A", "D", "V"} /\ o.r # <<[q |-> 1]>> =>
     /\ (e.a[1] = "dup" => LET a == st.x[e.a[3]] b == o.s.x[e.a[2]] IN (e.a[2] # e.a[3] => b # o.s.x[e.a[3]] /\ DeepO(o.s.h, b, o.s.x[e.a[3]])) /\ (e.a[4].b => Reach(o.s.h, AddRefs(<<>>, Held(o.s.h[Id(b)])), 1) = <<>> \/ \A x \in X \ {e.a[2]} : \A i \in 1..Len(Held(o.s.h[Id(b)])) : ~IsC(Held(o.s.h[Id(b)])[i]) \/ ~Reaches(o.s.h, o.s.x[x], Id(Held(o.s.h[Id(b)])[i]))))
     /\ (e.a[1] = "push" => \A x \in X : st.x[x] = st.x[e.a[3]] => Len(El(o.s.h, o.s.x[x])) = Len(El(st.h, st.x[x])) + 1))
  /\ (e.op \in {"A", "D"} /\ e.a[2] = "" => \A x, y \in X : (st.x[x] = st.x[y]) = (o.s.x[x] = o.s.x[y]))
============================================================================
