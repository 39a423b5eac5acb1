---------------------------- MODULE ConcCount ----------------------------
(* The counting algorithms step by step: a conditional increment and a      *)
(* raise-to-at-least are loops of one load and one compare-exchange that may *)
(* also fail for no reason; decrement is one step.  Every thread owns one    *)
(* count at the start and gives it back at its end.  Loop = FALSE is the     *)
(* faulty design that stores without comparing.                              *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Rounds, Loop, Level(_)
VARIABLES cnt, hi, pc, seen, left, own, freed, most
vars == <<cnt, hi, pc, seen, left, own, freed, most>>
Init == /\ cnt = Cardinality(Threads) /\ hi = 0 /\ pc = [t \in Threads |-> "idle"] /\ seen = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Rounds]
        /\ own = [t \in Threads |-> 1] /\ freed = 0 /\ most = 0
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ \E k \in {"inc", "max"} : pc' = [pc EXCEPT ![t] = k] /\ UNCHANGED <<cnt, hi, seen, own, freed, most>>
LoadC(t) == pc[t] = "inc" /\ seen' = [seen EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = IF cnt = 0 THEN "idle" ELSE "cinc"] /\ UNCHANGED <<cnt, hi, left, own, freed, most>>
CasC(t) == /\ pc[t] = "cinc"
           /\ \/ (cnt = seen[t] \/ ~Loop) /\ cnt' = seen[t] + 1 /\ own' = [own EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
              \/ Loop /\ pc' = [pc EXCEPT ![t] = "inc"] /\ UNCHANGED <<cnt, own>>
           /\ UNCHANGED <<hi, seen, left, freed, most>>
LoadM(t) == pc[t] = "max" /\ seen' = [seen EXCEPT ![t] = hi] /\ pc' = [pc EXCEPT ![t] = IF hi >= Level(t) THEN "idle" ELSE "cmax"]
            /\ most' = (IF hi >= Level(t) /\ Level(t) > most THEN Level(t) ELSE most) /\ UNCHANGED <<cnt, hi, left, own, freed>>
CasM(t) == /\ pc[t] = "cmax"
           /\ \/ (hi = seen[t] \/ ~Loop) /\ hi' = Level(t) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ most' = IF Level(t) > most THEN Level(t) ELSE most
              \/ Loop /\ pc' = [pc EXCEPT ![t] = "max"] /\ UNCHANGED <<hi, most>>
           /\ UNCHANGED <<cnt, seen, left, own, freed>>
Unref(t) == pc[t] = "idle" /\ own[t] > 0 /\ cnt' = cnt - 1 /\ own' = [own EXCEPT ![t] = @ - 1] /\ freed' = (IF cnt = 1 THEN freed + 1 ELSE freed) /\ UNCHANGED <<hi, pc, seen, left, most>>
Next == \E t \in Threads : Start(t) \/ LoadC(t) \/ CasC(t) \/ LoadM(t) \/ CasM(t) \/ Unref(t)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN own[t] + Sum(S \ {t})
Exact == cnt = Sum(Threads)                       \* the count is the number of owners
Once == freed <= 1 /\ (cnt > 0 => freed = 0)      \* disposed of once, and never while owned
Highest == hi >= most                             \* every finished raise still holds
Inv == Exact /\ Once /\ Highest
Quiet == (\A t \in Threads : own[t] = 0) => freed = 1
==========================================================================
