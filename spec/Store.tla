------------------------------- MODULE Store -------------------------------
(* The stores beneath the node: a current content, a durable content, and whether a writer is open.
   A batch is dropped when its writer goes away without a commit; a plain write is kept.  Whatever is open
   when the process dies is lost, except that a plain write to the database is durable at once. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT DIRECT       \* plain writes are durable at once (the database)
VARIABLES cur, com, mode
svars == <<cur, com, mode>>

Begin(m) == mode = "no" /\ mode' = m /\ UNCHANGED <<cur, com>>
Update(new) == mode # "no" /\ cur' = new /\ com' = (IF DIRECT /\ mode = "single" THEN new ELSE com) /\ UNCHANGED mode
Commit == mode = "batch" /\ com' = cur /\ UNCHANGED <<cur, mode>>
Rollback == mode = "batch" /\ cur' = com /\ UNCHANGED <<com, mode>>
End == mode # "no" /\ mode' = "no" /\ (IF mode = "batch" THEN cur' = com /\ UNCHANGED com ELSE com' = cur /\ UNCHANGED cur)
Reopen == cur' = com /\ mode' = "no" /\ UNCHANGED com

\* what each operation makes of a content
Extend(s, ds) == s \o ds
Shorten(s, n) == IF n > Len(s) THEN s ELSE SubSeq(s, 1, n)
Keep(bits, n, add) == {i \in bits \cup add : i < n}
Put(table, k, v) == {e \in table : e[1] # k} \cup {<<k, v>>}
Del(table, ks) == {e \in table : e[1] \notin ks}
\* chains: sequences of blocks by height, genesis first
Fits(c, h) == h = Len(c)
Common(a, b) == CHOOSE h \in 0 .. Len(a) - 1 : h < Len(b) /\ a[h + 1] = b[h + 1] /\ \A g \in h + 1 .. Len(a) - 1 : g < Len(b) => a[g + 1] # b[g + 1]
Min(a, b) == IF a < b THEN a ELSE b
Follow(dst, src, h) == IF h >= Len(src) THEN dst ELSE SubSeq(src, 1, h + 1)
Horizon(H) == IF H > 10080 THEN H - 10080 ELSE 0
=============================================================================
