----------------------------- MODULE PmmrTrace -----------------------------
EXTENDS Pmmr, Json, IOUtils
CONSTANT SPENDS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, floor, pruned   \* pruned: positions left out of the files, strictly below pruned roots
tvars == <<avars, l, floor, pruned>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[n] : n \in DOMAIN s}
\* the hash function, as sampled by the log
LH(p, d) == LET k == LeavesBefore(p) + 1
                hit(q) == E.hl[q][1] = p /\ E.hl[q][2] = d
                q == IF k \in DOMAIN E.hl /\ hit(k) THEN k ELSE CHOOSE q \in DOMAIN E.hl : hit(q)
            IN E.hl[q][3]
NH(p, a, b) == LET k == p - LeavesBefore(p) + 1
                   hit(q) == E.hn[q][1] = p /\ E.hn[q][2] = a /\ E.hn[q][3] = b
                   q == IF k \in DOMAIN E.hn /\ hit(k) THEN k ELSE CHOOSE q \in DOMAIN E.hn : hit(q)
               IN E.hn[q][4]

Compacted(p) == p \in pruned'
LastLive(n) == LET q == FoldLeft(LAMBDA a, i : IF Len(a) < n /\ Len(leaf') - i \in live' THEN Append(a, node'[PosOf(Len(leaf') - i) + 1]) ELSE a, <<>>, UpTo(Len(leaf'))) IN q
Chunk(c) == LET q == CHOOSE q \in DOMAIN E.hc : E.hc[q].p = Len(c) /\ Ran(E.hc[q].s) = {i \in live' : i \div 1024 = LeavesBefore(Len(c))} IN E.hc[q].h
ChunkTree(k) == FoldLeft(LAMBDA t, n : Complete(Append(t, Chunk(t)), NH), <<>>, UpTo(k))
NumChunks == (Len(leaf') + 1023) \div 1024

Agree ==
  /\ Ok("size", E.size \in {-1, Len(node')})
  /\ Ok("root", \A n \in DOMAIN E.roots : E.roots[n][2] = RootOf(node', E.roots[n][1], NH))
  /\ Ok("leaf", \A n \in DOMAIN E.at : LET i == E.at[n][1] IN
        /\ E.at[n][2] \in {-2, IF i \in live' THEN leaf'[i + 1] ELSE -1}
        /\ E.at[n][3] \in {-1, IF i \in live' THEN 1 ELSE 0})
  /\ Ok("hash", \A n \in DOMAIN E.hs : LET p == E.hs[n][1] IN E.hs[n][2] \in {-2, IF Compacted(p) THEN -1 ELSE node'[p + 1]})
  /\ Ok("last", E.size = -1 \/ E.last = LastLive(E.ln))
  /\ SPENDS => Ok("unspent root", E.ub = IF leaf' = <<>> THEN 0 ELSE RootOf(ChunkTree(NumChunks), NumChunks, NH))

TReset == /\ E.e = "Reset"
          /\ leaf' = E.ids /\ node' = GrowAll(<<>>, E.ids, LH, NH) /\ live' = (0 .. E.n - 1) \ Ran(E.spent)
          /\ com' = [leaf |-> leaf', node |-> node', live |-> live']
          /\ floor' = E.floor
          /\ \E P \in {PrunedPos(Ran(E.pruned), PosOf(E.floor))} : pruned' = P \ RootsOf(P)
          /\ Agree
\* The list of pruned subtrees, built leaf by leaf in any order, stored and read back.
TPrune == /\ E.e = "Prune" /\ UNCHANGED <<avars, floor, pruned>>
          /\ \E S \in {Ran(E.leaves)} : \E P \in {PrunedPos(S, 2 * E.n)} : \E R \in {RootsOf(P)} :
             \* running totals over the pruned roots: nodes and leaves left out up to each position
             \E sums \in {FoldLeft(LAMBDA t, p : LET h == IF p \in R THEN Height(p) ELSE 0 IN
                                    Append(t, <<t[Len(t)][1] + 2 * (Pow(h) - 1), t[Len(t)][2] + (IF h = 0 THEN 0 ELSE Pow(h))>>), <<<<0, 0>>>>, [n \in 1 .. 2 * E.n + 1 |-> n - 1])} :
                /\ Ok("pruned", \A p \in 0 .. Len(E.rows) - 1 : LET w == E.rows[p + 1] IN
                       /\ w[1] = (IF p \in P THEN 1 ELSE 0) /\ w[2] = (IF p \in R THEN 1 ELSE 0) /\ w[3] = (IF p \in P \ R THEN 1 ELSE 0)
                       /\ w[4] = sums[p + 2][1] /\ w[5] = sums[p + 2][2])
                /\ Ok("shift", E.total = sums[2 * E.n + 1][1])
TAppend == E.e = "Append" /\ AppendAll(E.ds, LH, NH) /\ UNCHANGED <<floor, pruned>> /\ Agree
TRemove == E.e = "Remove" /\ Ok("spent once", (E.r = "ok") = (E.i \in live)) /\ Spend(E.i) /\ UNCHANGED <<floor, pruned>> /\ Agree
TRewind == E.e = "Rewind" /\ Rewind(E.n, Ran(E.add)) /\ UNCHANGED <<floor, pruned>> /\ Agree
TCommit == E.e = "Commit" /\ Commit /\ UNCHANGED <<floor, pruned>> /\ Agree
TDiscard == E.e \in {"Rollback", "Reload"} /\ Discard /\ UNCHANGED <<floor, pruned>> /\ Agree
TPos == /\ E.e = "Pos" /\ UNCHANGED <<avars, floor, pruned>>
        /\ LET p == E.p h == Height(p) IN
           /\ Ok("height", E.h = h /\ E.leaf = (h = 0))
           /\ Ok("family", E.par = Parent(p) /\ E.parh = h + 1 /\ E.sib = Sibling(p) /\ (h > 0 => E.l = LeftChild(p) /\ E.r = RightChild(p)))
           /\ Ok("leaf", (h = 0 => E.li = LeavesBefore(p) /\ E.at = LeavesBefore(p) /\ PosOf(E.li) = p))
           /\ Ok("peaks", E.peaks = Peaks(p))
TLeaf == /\ E.e = "Leaf" /\ UNCHANGED <<avars, floor, pruned>>
         /\ Ok("leaf position", E.p = PosOf(E.i) /\ E.next = PosOf(E.i + 1) /\ (E.i > 0 => E.prev = PosOf(E.i - 1)))
TStep == TReset \/ TPrune \/ TAppend \/ TRemove \/ TRewind \/ TCommit \/ TDiscard \/ TPos \/ TLeaf
TInit == leaf = <<>> /\ node = <<>> /\ live = {} /\ com = [leaf |-> <<>>, node |-> <<>>, live |-> {}] /\ l = 1 /\ floor = 0 /\ pruned = {}
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Sizes == Len(node) = PosOf(Len(leaf)) /\ live \subseteq 0 .. Len(leaf) - 1
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
