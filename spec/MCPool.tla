------------------------------- MODULE MCPool -------------------------------
(* All interleavings of submissions, relaying, time and a small forked chain. *)
EXTENDS Pool
CONSTANTS MaxNow, MaxSubmit
VARIABLES now, subs
mcvars == <<pvars, now, subs>>
T(i, o, k, lock, fok) == [i |-> i, o |-> o, k |-> k, lock |-> lock, fok |-> fok, sok |-> TRUE]
\* conflicting spends, duplicate outputs, a shared kernel, a locked one, one without fee, one on another fork's output
Txs == { T({1}, {11}, {21}, 0, TRUE), T({1}, {12}, {22}, 0, TRUE), T({2}, {11}, {23}, 0, TRUE), T({2}, {13}, {24}, 3, TRUE),
         T({3}, {14}, {25}, 0, FALSE), T({5}, {15}, {26}, 0, TRUE), T({2, 3}, {16}, {21}, 0, TRUE) }
U(h, cb) == [h |-> h, cb |-> cb]
Base == (1 :> U(1, FALSE)) @@ (2 :> U(1, FALSE)) @@ (3 :> U(1, FALSE))
Blk(p, h, td, u, path, in, out, ker) == [parent |-> p, h |-> h, td |-> td, utxo |-> u, path |-> path, in |-> in, out |-> out, ker |-> ker, cbker |-> 90, cbout |-> {}]
Less(u, s) == [x \in (DOMAIN u) \ s |-> u[x]]
\* 0 - A (spends 1) - C (two blocks worth of work); 0 - B (creates 5, kernel 24 by spending 2) - D (heavier)
World == [b \in {0, 1, 2, 3, 4} |->
  CASE b = 0 -> Blk(-1, 1, 1, Base, <<0>>, {}, {}, {})
    [] b = 1 -> Blk(0, 2, 2, Less(Base, {1}) @@ (11 :> U(2, FALSE)), <<0, 1>>, {1}, {11}, {21})
    [] b = 2 -> Blk(0, 2, 2, Less(Base, {2}) @@ (5 :> U(2, FALSE)) @@ (13 :> U(2, FALSE)), <<0, 2>>, {2}, {5, 13}, {24})
    [] b = 3 -> Blk(1, 3, 3, Less(Base, {1, 11}) @@ (17 :> U(3, FALSE)), <<0, 1, 3>>, {11}, {17}, {27})
    [] b = 4 -> Blk(2, 3, 4, Less(Base, {2}) @@ (5 :> U(2, FALSE)) @@ (13 :> U(2, FALSE)), <<0, 2, 4>>, {}, {}, {})]
MCInit == bk = World /\ tip = 0 /\ mem = <<>> /\ stem = <<>> /\ now = 0 /\ subs = 0
Busy == stem # <<>> \/ mem # <<>>
MCNext ==
  \/ \E t \in Txs : subs < MaxSubmit /\ subs' = subs + 1 /\ AddPublic(t) /\ UNCHANGED now
  \/ \E t \in Txs : subs < MaxSubmit /\ subs' = subs + 1 /\ AddStem(t, now, {"TO_STEM", "TO_FLUFF"}) /\ UNCHANGED now
  \/ ToStem /\ UNCHANGED <<now, subs>>
  \/ ToFluff /\ UNCHANGED <<now, subs>>
  \/ \E n \in DOMAIN stem : now - stem[n].at > Embargo /\ AddPublic(stem[n].tx) /\ UNCHANGED <<now, subs>>
  \/ now < MaxNow /\ Busy /\ now' = now + 1 /\ UNCHANGED <<pvars, subs>>
  \/ \E b \in DOMAIN bk : b # tip /\ Len(bk[b].path) > 1 /\ (bk[b].parent = tip \/ bk[b].td > bk[tip].td) /\ Confirm(b) /\ UNCHANGED <<now, subs>>
MCSpec == MCInit /\ [][MCNext]_mcvars
\* C06: a new block removes what it confirms or conflicts with, and, if the others are jointly valid, nothing else
Settled == [][tip' # tip =>
   LET bs == NewlyConfirmed(tip') kept == {t \in RangeOf(mem) : Survives(t, bs)} IN
   /\ RangeOf(mem') \subseteq kept
   /\ Joint(kept, tip') => RangeOf(mem') = kept]_mcvars
\* C06: a pooled transaction leaves only with a block
Leaves == [][tip' = tip => \A t \in RangeOf(mem) : t \in RangeOf(mem')]_mcvars
\* C07: nothing waits in the stem pool that is public, or that shares a kernel with what became public after it
StemSound == \A x \in RangeOf(stem) : x.tx.fok /\ Fits(x.tx.i, x.tx.o, tip) /\ x.tx.lock <= bk[tip].h + 1
=============================================================================
