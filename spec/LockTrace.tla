----------------------------- MODULE LockTrace -----------------------------
EXTENDS Lock, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, queue, got, producers
tvars == <<lvars, l, queue, got, producers>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Q == <<queue, got, producers>>
Writing == Ok("writing", writer[E.o] = E.th)
TReset == E.e = "Reset" /\ LET D == 0 .. E.n - 1 IN
  /\ writer' = [o \in D |-> 0] /\ kind' = [o \in D |-> "single"] /\ readers' = [o \in D |-> {}]
  /\ val' = [o \in D |-> <<0, 0, 0>>] /\ com' = [o \in D |-> <<0, 0, 0>>] /\ UNCHANGED Q
TWB == E.e = "WB" /\ Ok("exclusive", CanWrite(E.o)) /\ StartWrite(E.th, E.o, IF E.b THEN "batch" ELSE "single") /\ UNCHANGED Q
TWX == E.e = "WX" /\ Ok("exclusive", CanWrite(E.o)) /\ UNCHANGED <<lvars, Q>>
TSet == E.e = "Set" /\ Writing /\ Change(E.th, E.o, [val[E.o] EXCEPT ![E.i + 1] = E.v]) /\ UNCHANGED Q
\* by itself, a writer commits only what is no batch and takes back only what is one
TCommit == E.e = "Commit" /\ Writing /\ Ok("uncommitted", E.auto => kind[E.o] = "single") /\ Commit(E.th, E.o) /\ UNCHANGED Q
TRollback == E.e = "Rollback" /\ Writing /\ Ok("taken back", E.auto => kind[E.o] = "batch") /\ Rollback(E.th, E.o) /\ UNCHANGED Q
TCX == E.e = "CX" /\ Writing /\ Ok("uncommitted", E.auto => kind[E.o] = "single") /\ UNCHANGED Q
  /\ IF E.auto THEN val' = [val EXCEPT ![E.o] = com[E.o]] /\ writer' = [writer EXCEPT ![E.o] = 0] /\ UNCHANGED <<kind, readers, com>> ELSE Rollback(E.th, E.o)
TWE == E.e = "WE" /\ Writing /\ Ok("settled", val[E.o] = com[E.o]) /\ Ok("content", E.val = val[E.o] /\ E.com = com[E.o]) /\ EndWrite(E.th, E.o) /\ UNCHANGED Q
TPE == E.e = "PE" /\ Writing /\ Ok("content", E.val = val[E.o]) /\ writer' = [writer EXCEPT ![E.o] = 0] /\ com' = [com EXCEPT ![E.o] = val[E.o]] /\ UNCHANGED <<kind, readers, val>> /\ UNCHANGED Q
TRB == E.e = "RB" /\ Ok("shared", CanRead(E.o)) /\ StartRead(E.th, E.o) /\ UNCHANGED Q
TRD == E.e = "RD" /\ Ok("held", E.th \in readers[E.o] \/ writer[E.o] = E.th) /\ Ok("seen", E.val = val[E.o] /\ (E.th \in readers[E.o] => E.val = com[E.o])) /\ UNCHANGED <<lvars, Q>>
TRE == E.e = "RE" /\ Ok("reading", E.th \in readers[E.o]) /\ EndRead(E.th, E.o) /\ UNCHANGED Q
TNoBatch == E.e = "NoBatch" /\ Ok("refused", E.r = "refused") /\ UNCHANGED <<lvars, Q>>
\* the queue: what was announced but perhaps not yet put in, per producer, and how far each was consumed
Ints(s) == {s[i] : i \in DOMAIN s}
TQueue == E.e = "Queue" /\ queue' = [k \in 1 .. E.p |-> 0] /\ got' = [k \in 1 .. E.p |-> 0] /\ producers' = E.n /\ UNCHANGED lvars
TPush == E.e = "Push" /\ Ok("order", queue[E.p] = E.x) /\ queue' = [queue EXCEPT ![E.p] = @ + 1] /\ UNCHANGED <<lvars, got, producers>>
Of(s, p) == SelectSeq(s, LAMBDA v : v \div 1000 = p)
TFront == E.e = "Front" /\ Ok("count", Len(E.f) <= E.n) /\ UNCHANGED <<lvars, queue, producers>>
  /\ Ok("known", \A v \in Ints(E.f) : v \div 1000 \in DOMAIN queue)
  /\ \A p \in DOMAIN queue : \E s \in {Of(E.f, p)} : Ok("in order", \A i \in DOMAIN s : s[i] = p * 1000 + got[p] + i - 1) /\ Ok("pushed", got[p] + Len(s) <= queue[p])
  /\ got' = [k \in DOMAIN got |-> got[k] + Len(Of(E.f, k))]
TPop == E.e = "Pop" /\ Ok("popped", E.ok) /\ UNCHANGED <<lvars, Q>>
TEmpty == E.e = "Empty" /\ Ok("drained", E.size = 0 /\ \A p \in DOMAIN got : got[p] = producers) /\ UNCHANGED <<lvars, Q>>
TUnique == E.e = "Unique" /\ Ok("once", \E ks \in {[i \in 1 .. E.n |-> i - 1]} : E.won = ks /\ E.have = ks) /\ UNCHANGED <<lvars, Q>>
TStuck == E.e = "Stuck" /\ Ok("progress", FALSE) /\ UNCHANGED <<lvars, Q>>
TStep == TReset \/ TWB \/ TWX \/ TSet \/ TCommit \/ TRollback \/ TCX \/ TWE \/ TPE \/ TRB \/ TRD \/ TRE \/ TNoBatch \/ TQueue \/ TPush \/ TFront \/ TPop \/ TEmpty \/ TUnique \/ TStuck
TInit == writer = <<>> /\ kind = <<>> /\ readers = <<>> /\ val = <<>> /\ com = <<>> /\ l = 1 /\ queue = <<>> /\ got = <<>> /\ producers = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
