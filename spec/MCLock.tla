------------------------------- MODULE MCLock -------------------------------
(* Threads taking one or several objects, to read or to write, in any order: each waits for one of them, tries
   the others, and on a failure lets go of everything and waits for the one that failed. *)
EXTENDS Lock, TLC
CONSTANTS Threads, Objects, ROUNDS
VARIABLES pc, want, mode, held, next, left
mvars == <<lvars, pc, want, mode, held, next, left>>
Modes == {"read", "single", "batch"}
Init == /\ writer = [o \in Objects |-> 0] /\ kind = [o \in Objects |-> "single"] /\ readers = [o \in Objects |-> {}]
        /\ val = [o \in Objects |-> 0] /\ com = [o \in Objects |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> {}] /\ mode = [t \in Threads |-> "read"]
        /\ held = [t \in Threads |-> {}] /\ next = [t \in Threads |-> 0] /\ left = [t \in Threads |-> ROUNDS]
Choose(t) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ \E s \in SUBSET Objects \ {{}}, m \in Modes, o \in Objects : o \in s /\ want' = [want EXCEPT ![t] = s] /\ mode' = [mode EXCEPT ![t] = m] /\ next' = [next EXCEPT ![t] = o]
  /\ pc' = [pc EXCEPT ![t] = "wait"] /\ held' = [held EXCEPT ![t] = {}] /\ UNCHANGED lvars
Acquire(t, o) == IF mode[t] = "read" THEN StartRead(t, o) ELSE StartWrite(t, o, mode[t])
CanTake(t, o) == IF mode[t] = "read" THEN CanRead(o) ELSE CanWrite(o)
\* the blocking acquisition
Wait(t) == pc[t] = "wait" /\ Acquire(t, next[t]) /\ held' = [held EXCEPT ![t] = {next[t]}] /\ pc' = [pc EXCEPT ![t] = IF want[t] = {next[t]} THEN "in" ELSE "try"] /\ UNCHANGED <<want, mode, next, left>>
Try(t) == pc[t] = "try" /\ \E o \in want[t] \ held[t] :
  IF CanTake(t, o) THEN Acquire(t, o) /\ held' = [held EXCEPT ![t] = @ \cup {o}] /\ pc' = [pc EXCEPT ![t] = IF held[t] \cup {o} = want[t] THEN "in" ELSE "try"] /\ UNCHANGED <<want, mode, next, left>>
  ELSE pc' = [pc EXCEPT ![t] = "back"] /\ next' = [next EXCEPT ![t] = o] /\ UNCHANGED <<lvars, held, want, mode, left>>
Release(t, o) == IF mode[t] = "read" THEN EndRead(t, o) ELSE EndWrite(t, o)
Back(t) == pc[t] = "back" /\ IF held[t] = {} THEN pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<lvars, held, want, mode, next, left>>
  ELSE \E o \in held[t] : Release(t, o) /\ held' = [held EXCEPT ![t] = @ \ {o}] /\ UNCHANGED <<pc, want, mode, next, left>>
Work(t) == pc[t] = "in" /\ mode[t] # "read" /\ \E o \in held[t] : (\E v \in 1 .. 1 : Change(t, o, v)) \/ (mode[t] = "batch" /\ (Commit(t, o) \/ Rollback(t, o)))
Go(t) == pc[t] = "in" /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED lvars
Out(t) == pc[t] = "out" /\ IF held[t] = {} THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<lvars, held>>
  ELSE \E o \in held[t] : /\ UNCHANGED pc
    /\ IF mode[t] # "read" /\ val[o] # com[o] THEN UNCHANGED held /\ (IF mode[t] = "batch" THEN Rollback(t, o) ELSE Commit(t, o)) ELSE Release(t, o) /\ held' = [held EXCEPT ![t] = @ \ {o}]
Step(t) == Choose(t) \/ Wait(t) \/ Try(t) \/ Back(t) \/ (Work(t) /\ UNCHANGED <<pc, want, mode, held, next, left>>) \/ (Go(t) /\ UNCHANGED <<want, mode, held, next, left>>) \/ (Out(t) /\ UNCHANGED <<want, mode, next, left>>)
Over == (\A t \in Threads : pc[t] = "idle" /\ left[t] = 0) /\ UNCHANGED mvars
Next == (\E t \in Threads : Step(t)) \/ Over
Spec == Init /\ [][Next]_mvars
\* what a reader looks at is what was last committed
Settled == \A o \in Objects : readers[o] # {} => val[o] = com[o]
Tracked == \A t \in Threads, o \in Objects : o \in held[t] <=> (IF mode[t] = "read" THEN t \in readers[o] ELSE writer[o] = t)
=============================================================================
