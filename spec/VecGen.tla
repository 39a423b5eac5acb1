------------------------------ MODULE VecGen ------------------------------
(* Small-scope exploration of the MLPPVector container API: every heap of *)
(* two vectors over Vals up to MaxLen, and every call on it.              *)
EXTENDS LaSpec
(* ---- small-scope enumeration of container calls for exhaustive exploration ---- *)
CONSTANTS Vals, MaxLen
C(op, a) == [op |-> op, a |-> a]
Idx == -1..(MaxLen + 1)
Small == UNION {[1..n -> Vals] : n \in 0..2}
ContainerCmds(st, v, w) ==
  LET n == Len(st[v]) IN
  (IF n < MaxLen THEN {C("V.push_back", <<v, x>>) : x \in Vals}
       \cup {C("V.insert", <<v, i, x>>) : i \in Idx, x \in Vals}
       \cup {C("V.ordered_insert", <<v, x>>) : x \in Vals} ELSE {})
  \cup (IF n + Len(st[w]) <= MaxLen THEN {C("V.append", <<v, w>>)} ELSE {})
  \cup (IF 2 * n <= MaxLen THEN {C("V.append", <<v, v>>)} ELSE {})
  \cup {C("V.append", <<v, "null">>), C("V.set_from_vec", <<v, "null">>)}
  \cup {C(o, <<v, i>>) : o \in {"V.remove", "V.remove_unordered", "V.get"}, i \in Idx}
  \cup {C(o, <<v, x>>) : o \in {"V.erase", "V.erase_multi", "V.fill"}, x \in Vals}
  \cup {C(o, <<v>>) : o \in {"V.invert", "V.clear", "V.reset", "V.sort", "V.query", "V.to_vector", "V.to_pool", "V.get_data", "V.to_bytes", "V.to_std"}}
  \cup {C("V.resize", <<v, k, x>>) : k \in 0..MaxLen, x \in Vals}
  \cup {C("V.find", <<v, x, i>>) : x \in Vals, i \in 0..(MaxLen + 1)}
  \cup {C("V.set", <<v, i, x>>) : i \in Idx, x \in Vals}
  \cup {C("V.setref", <<v, i, x>>) : i \in 0..(n - 1), x \in Vals}
  \cup {C("V.getref", <<v, i>>) : i \in 0..(n - 1)}
  \cup {C("V.duplicate", <<v, w>>), C("V.copy_ctor", <<v, w>>), C("V.set_from_vec", <<v, w>>), C("V.set_from_vecr", <<v, w>>),
        C("V.set_from_vec", <<v, v>>), C("V.set_from_vecr", <<v, v>>)}
  \cup {C("V.set_from", <<v, k, x>>) : k \in {"vector", "pool", "data", "std"}, x \in Small}
  \cup {C("V.ctor", <<v, k, x>>) : k \in {"vector", "pool", "std", "ptr"}, x \in Small}
  \cup {C("V.is_equal", <<v, x, t>>) : x \in {v, w, "null"}, t \in {"0.5", "1.5"}}
  \cup (IF n + Len(st[w]) <= MaxLen THEN {C("V.flattenn", <<v, w, <<v, w>>>>), C("V.flattenn", <<v, v, <<w, v>>>>)} ELSE {})
  \cup (IF 2 * Len(st[w]) <= MaxLen THEN {C("V.flatten", <<v, <<w, w>>>>)} ELSE {})
  \cup {C("V.flatten", <<v, <<w>>>>), C("V.flatten", <<v, <<>>>>), C("V.flattenn", <<v, w, <<>>>>)}
Cmds(st) == IF st = InitState THEN {C("V.new", <<"v1", <<>>>>)}
            ELSE IF ~Has(st, "v2") THEN {C("V.new", <<"v2", x>>) : x \in Small}
            ELSE ContainerCmds(st, "v1", "v2") \cup ContainerCmds(st, "v2", "v1")

(* ---- design properties, checked by TLC over the reachable heaps ---- *)
CopyIndependence(st, e, o) ==   \* a call changes at most its first (target) slot
  \A k \in DOMAIN st : k # e.a[1] => o.s[k] = st[k]
SortedPerm(v) == LET s == SortedR(v) IN
  /\ \A i \in 1..(Len(s) - 1) : ~RLt(s[i + 1], s[i])
  /\ \A x \in Vals : Count(s, x) = Count(v, x)
RoundTrips(v) ==
  /\ Rev(Rev(v)) = v
  /\ \A i \in 0..Len(v) : \A x \in Vals : RemoveIdx(InsertIdx(v, i, x), i) = v
  /\ \A x \in Vals : LET r == EraseMulti(v, x, 0, 0) IN
        /\ r.n = Count(v, x) /\ Count(r.v, x) = 0
        /\ \A y \in Vals \ {x} : Count(r.v, y) = Count(v, y)
  /\ \A i \in 0..(Len(v) - 1) : \A x \in Vals : Count(RemoveUnordered(v, i), x) = Count(RemoveIdx(v, i), x)
StateOK(st) == \A k \in DOMAIN st : SortedPerm(st[k]) /\ RoundTrips(st[k])
StepOK(st, e, o) == CopyIndependence(st, e, o)
=========================================================================
