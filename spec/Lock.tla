-------------------------------- MODULE Lock --------------------------------
(* Objects behind reader/writer wrappers: who reads and who writes each of them, and what it contains.
   A plain writer's changes are kept when it goes away, a batch writer's only if they were committed. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES writer,   \* object -> thread writing it, or 0
          kind,     \* object -> "single" or "batch", while written
          readers,  \* object -> threads reading it
          val, com  \* object -> current and committed content
lvars == <<writer, kind, readers, val, com>>

CanRead(o) == writer[o] = 0
CanWrite(o) == writer[o] = 0 /\ readers[o] = {}
StartRead(t, o) == CanRead(o) /\ readers' = [readers EXCEPT ![o] = @ \cup {t}] /\ UNCHANGED <<writer, kind, val, com>>
EndRead(t, o) == t \in readers[o] /\ readers' = [readers EXCEPT ![o] = @ \ {t}] /\ UNCHANGED <<writer, kind, val, com>>
StartWrite(t, o, k) == CanWrite(o) /\ writer' = [writer EXCEPT ![o] = t] /\ kind' = [kind EXCEPT ![o] = k] /\ UNCHANGED <<readers, val, com>>
Change(t, o, new) == writer[o] = t /\ val' = [val EXCEPT ![o] = new] /\ UNCHANGED <<writer, kind, readers, com>>
Commit(t, o) == writer[o] = t /\ com' = [com EXCEPT ![o] = val[o]] /\ UNCHANGED <<writer, kind, readers, val>>
Rollback(t, o) == writer[o] = t /\ val' = [val EXCEPT ![o] = com[o]] /\ UNCHANGED <<writer, kind, readers, com>>
EndWrite(t, o) == writer[o] = t /\ val[o] = com[o] /\ writer' = [writer EXCEPT ![o] = 0] /\ UNCHANGED <<kind, readers, val, com>>

Exclusive == \A o \in DOMAIN writer : writer[o] # 0 => readers[o] = {}
Stable == \A o \in DOMAIN writer : writer[o] = 0 => val[o] = com[o]
=============================================================================
