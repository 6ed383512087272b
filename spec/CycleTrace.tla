------------------------------ MODULE CycleTrace ------------------------------
(* When a list of edges of a graph proves work: LEN different edges of it, in rising order, that form one
   simple cycle. Cuckaroo graphs are bipartite; in Cuckatoo graphs two edges meet where their ends differ
   in the last bit only. Each logged proof comes with the ends of its edges. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
LEN == 42
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Meet(kind, a, b) == IF kind = "cuckatoo" THEN a # b /\ a \div 2 = b \div 2 ELSE a = b
Near(kind, a, b) == IF kind = "cuckatoo" THEN a \div 2 = b \div 2 ELSE a = b
(* The edges other than i that touch i's end on the given side. *)
At(e, side, i) == {j \in 1..LEN \ {i} : Near(e.kind, e.ends[i][side], e.ends[j][side])}
Paired(e) == \A side \in {1, 2}, i \in 1..LEN : Cardinality(At(e, side, i)) = 1 /\ \A j \in At(e, side, i) : Meet(e.kind, e.ends[i][side], e.ends[j][side])
Other(e, side, i) == CHOOSE j \in At(e, side, i) : TRUE
RECURSIVE Walk(_, _, _, _)
Walk(e, i, side, n) == LET j == Other(e, side, i) IN IF j = 1 /\ side = 2 THEN n + 1 ELSE IF n > LEN THEN 0 ELSE Walk(e, j, 3 - side, n + 1)
Proof(e) == /\ Len(e.nonces) = LEN /\ \A i \in 1..LEN : e.nonces[i] < e.edges
            /\ \A i \in 2..LEN : e.nonces[i - 1] < e.nonces[i]
            /\ Paired(e) /\ Walk(e, 1, 1, 0) = LEN
Step == IF E.valid = Proof(E) THEN TRUE ELSE PrintT(<<"MISMATCH", "cycle", "line", l>>) /\ FALSE
Init == l = 1
Next == l <= Len(Log) /\ Step /\ l' = l + 1
TSpec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
