------------------------------ MODULE MCStore ------------------------------
(* How the append-only file gets there: what is on disk, how much of it counts, and a buffer behind it.
   Checked to be the ideal store of Store.tla for every short sequence of operations. *)
EXTENDS Integers, Sequences
CONSTANTS Data, MaxLen
VARIABLES disk, fsize, bidx, buf, mode, ok
vars == <<disk, fsize, bidx, buf, mode, ok>>
Cur == SubSeq(disk, 1, bidx) \o buf
Abs == INSTANCE Store WITH cur <- SubSeq(disk, 1, bidx) \o buf, com <- disk, DIRECT <- FALSE
Init == disk = <<>> /\ fsize = 0 /\ bidx = 0 /\ buf = <<>> /\ mode = "no" /\ ok = TRUE
Begin == mode = "no" /\ mode' \in {"batch", "single"} /\ UNCHANGED <<disk, fsize, bidx, buf, ok>>
Add == mode # "no" /\ bidx + Len(buf) < MaxLen /\ \E d \in Data : buf' = Append(buf, d) /\ UNCHANGED <<disk, fsize, bidx, mode, ok>>
Rewind == mode # "no" /\ \E n \in 0 .. MaxLen : UNCHANGED <<disk, fsize, mode, ok>> /\
            IF n > bidx + Len(buf) THEN UNCHANGED <<bidx, buf>>
            ELSE IF n <= bidx THEN buf' = <<>> /\ bidx' = n
            ELSE buf' = SubSeq(buf, 1, n - bidx) /\ bidx' = bidx
Write == IF fsize = bidx /\ buf = <<>> THEN UNCHANGED <<disk, fsize, bidx, buf, ok>>
         ELSE IF fsize < bidx THEN ok' = FALSE /\ UNCHANGED <<disk, fsize, bidx, buf>>
         ELSE /\ disk' = SubSeq(disk, 1, bidx) \o buf /\ fsize' = bidx + Len(buf) /\ bidx' = fsize' /\ buf' = <<>> /\ UNCHANGED ok
Forget == bidx' = fsize /\ buf' = <<>> /\ UNCHANGED <<disk, fsize, ok>>
Commit == mode = "batch" /\ Write /\ UNCHANGED mode
Rollback == mode = "batch" /\ Forget /\ UNCHANGED mode
End == mode # "no" /\ mode' = "no" /\ (IF mode = "batch" THEN Forget ELSE Write)
Die == mode' = "no" /\ fsize' = Len(disk) /\ bidx' = Len(disk) /\ buf' = <<>> /\ UNCHANGED <<disk, ok>>
Next == Begin \/ Add \/ Rewind \/ Commit \/ Rollback \/ End \/ Die
Spec == Init /\ [][Next]_vars
Works == ok /\ fsize = Len(disk) /\ bidx <= fsize
\* every step is a step of the ideal store
Refines == [][\/ (\E m \in {"batch", "single"} : Abs!Begin(m)) \/ (\E d \in Data : Abs!Update(Abs!Extend(Cur, <<d>>)))
              \/ (\E n \in 0 .. MaxLen : Abs!Update(Abs!Shorten(Cur, n))) \/ Abs!Commit \/ Abs!Rollback \/ Abs!End \/ Abs!Reopen]_vars
=============================================================================
