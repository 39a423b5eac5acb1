---------------------------- MODULE ConcNames ----------------------------
(* How names are interned, step by step: a table guarded by a lock, entries  *)
(* with a count.  A name is dropped by an atomic decrement outside the lock  *)
(* and the entry is taken out under the lock when the count reached zero;    *)
(* making a name finds the entry under the lock and takes it only if its     *)
(* count is not zero already.  Guarded = FALSE is the faulty design that     *)
(* takes the entry whatever its count is.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Texts, Rounds, Guarded
VARIABLES table, ent, lock, pc, reg, want, left, nextId
vars == <<table, ent, lock, pc, reg, want, left, nextId>>
None == 0
Init == /\ table = [x \in Texts |-> <<>>]            \* entries of each text, newest first
        /\ ent = [e \in {} |-> 0]                     \* allocated entries: count and text
        /\ lock = None /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> None]
        /\ want = [t \in Threads |-> None] /\ left = [t \in Threads |-> Rounds] /\ nextId = 1
Begin(t) == /\ pc[t] = "idle" /\ reg[t] = None /\ left[t] > 0
            /\ \E x \in Texts : want' = [want EXCEPT ![t] = x]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<table, ent, lock, reg, nextId>>
Lock(t, from, to) == pc[t] = from /\ lock = None /\ lock' = t /\ pc' = [pc EXCEPT ![t] = to] /\ UNCHANGED <<table, ent, reg, want, left, nextId>>
(* under the lock: look for the text, take the count of a found entry atomically (others may be dropping it) *)
Find(t) == /\ pc[t] = "find"
           /\ LET c == table[want[t]] IN
              IF c = <<>> THEN pc' = [pc EXCEPT ![t] = "new"] /\ UNCHANGED <<ent, reg>>
              ELSE IF Guarded /\ ent[c[1]].n = 0 THEN pc' = [pc EXCEPT ![t] = "new"] /\ UNCHANGED <<ent, reg>>
              ELSE ent' = [ent EXCEPT ![c[1]].n = @ + 1] /\ reg' = [reg EXCEPT ![t] = c[1]] /\ pc' = [pc EXCEPT ![t] = "unlock"]
           /\ UNCHANGED <<table, lock, want, left, nextId>>
New(t) == /\ pc[t] = "new"
          /\ ent' = [e \in DOMAIN ent \cup {nextId} |-> IF e = nextId THEN [n |-> 1, x |-> want[t]] ELSE ent[e]]
          /\ table' = [table EXCEPT ![want[t]] = <<nextId>> \o @] /\ reg' = [reg EXCEPT ![t] = nextId] /\ nextId' = nextId + 1
          /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, want, left>>
Unlock(t) == pc[t] = "unlock" /\ lock' = None /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<table, ent, reg, want, left, nextId>>
Drop(t) == /\ pc[t] = "idle" /\ reg[t] # None
           /\ ent' = [ent EXCEPT ![reg[t]].n = @ - 1]
           /\ IF ent[reg[t]].n = 1 THEN pc' = [pc EXCEPT ![t] = "dlock"] /\ UNCHANGED reg
              ELSE reg' = [reg EXCEPT ![t] = None] /\ UNCHANGED pc
           /\ UNCHANGED <<table, lock, want, left, nextId>>
Free(t) == /\ pc[t] = "free"
           /\ LET e == reg[t] IN table' = [table EXCEPT ![ent[e].x] = SelectSeq(@, LAMBDA i : i # e)] /\ ent' = [i \in DOMAIN ent \ {e} |-> ent[i]]
           /\ reg' = [reg EXCEPT ![t] = None] /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, want, left, nextId>>
Next == \E t \in Threads : Begin(t) \/ Lock(t, "lock", "find") \/ Lock(t, "dlock", "free") \/ Find(t) \/ New(t) \/ Unlock(t) \/ Drop(t) \/ Free(t)
Fair == \A t \in Threads : WF_vars(Lock(t, "lock", "find") \/ Lock(t, "dlock", "free") \/ Find(t) \/ New(t) \/ Unlock(t) \/ Drop(t) \/ Free(t) \/ Begin(t))
Spec == Init /\ [][Next]_vars /\ Fair
Holds(t) == reg[t] # None /\ pc[t] \in {"idle", "unlock"}
(* what a user relies on *)
Alive == \A t \in Threads : Holds(t) => reg[t] \in DOMAIN ent /\ ent[reg[t]].x = want[t]
Identity == \A t, u \in Threads : (Holds(t) /\ Holds(u)) => ((want[t] = want[u]) <=> (reg[t] = reg[u]))
OneLive == \A x \in Texts : Cardinality({e \in DOMAIN ent : ent[e].x = x /\ ent[e].n > 0}) <= 1
Linked == \A x \in Texts : {table[x][i] : i \in 1..Len(table[x])} = {e \in DOMAIN ent : ent[e].x = x}
Clean == (\A t \in Threads : pc[t] = "idle" /\ reg[t] = None) => DOMAIN ent = {}
Inv == Alive /\ Identity /\ OneLive /\ Linked /\ Clean
Finish == <>[](\A t \in Threads : left[t] = 0 /\ reg[t] = None /\ pc[t] = "idle")
==========================================================================
