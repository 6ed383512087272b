------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* How a node catches up with its peers.                                   *)
(*                                                                         *)
(* The node turns to the peers that claim the most work.  It asks one of   *)
(* them for headers until it is less than five behind, asks for the state  *)
(* itself when its last block lies beyond the horizon, and then asks the   *)
(* peers with the most work for the blocks it lacks, lowest first.  Every  *)
(* request has a deadline: headers and blocks are asked for once more, and *)
(* then the peer is banned and another one is asked; the state is asked of *)
(* another peer at once.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Slack == 5                \* how far behind a node may be and still count as caught up
Horizon == 10080          \* blocks further back than this are not asked for one by one
StateDepth == 2880        \* how far behind the last header the state asked for is
FullBatch == 511          \* headers that have to come before more are asked for at once
Deadline == 10000         \* of a request
Again == 5000             \* of a block asked for a second time
First == 15               \* blocks that are always asked for
PerPeer == 32             \* at most this many times the number of peers beyond the first block lacking

\* n: the height the peers claim (0 while none is known), h: of the last header, b: of the last block; synced: caught up once before
HeadersBehind(n, h, synced) == n = 0 \/ n >= h + Slack \/ (~synced /\ n > h)
StateBehind(h, b) == h >= Horizon /\ b <= h - Horizon
StateStrictlyBehind(h, b) == h >= Horizon /\ b < h - Horizon
BlocksBehind(n, b, synced) == n >= b + Slack \/ (~synced /\ n > b)

\* peers: id -> [td, h, ...]; those whose claim is the highest (peers that told no height yet do not count)
Claiming(u) == {c \in DOMAIN u : u[c].h > 0}
Most(u) == {c \in Claiming(u) : \A d \in Claiming(u) : u[d].td <= u[c].td}
Highest(u) == {c \in Most(u) : \A d \in Most(u) : u[d].h <= u[c].h}
NetHeight(u, n) == IF Highest(u) = {} THEN n ELSE u[CHOOSE c \in Highest(u) : TRUE].h
Lowest(s, n) == {i \in s : Cardinality({j \in s : j < i}) < n}
=============================================================================
