-------------------------------- MODULE Pmmr --------------------------------
(***************************************************************************)
(* The ideal append-only accumulator: a sequence of leaves, the tree built *)
(* over them in post order, and the set of leaves not spent yet.           *)
(* Hashing is an uninterpreted function given by LeafHash and NodeHash.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES leaf,   \* what was appended, in order
          node,   \* the tree's hashes in post order: node[p + 1] is the hash at position p
          live,   \* indices of unspent leaves
          com     \* the three as last committed
avars == <<leaf, node, live, com>>

\* ---- the shape of the tree
Pow(n) == 2 ^ n
RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN 0 ELSE (n % 2) + Ones(n \div 2)
PosOf(i) == 2 * i - Ones(i)                    \* position of leaf i
RECURSIVE MaxTree(_)
MaxTree(n) == IF n < 3 THEN 1 ELSE 2 * MaxTree((n - 1) \div 2) + 1   \* greatest 2^k - 1 not above n
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
\* The post-order list of heights in a perfect tree of height k, and of the leaves before each node.
HeightsIn[k \in 0 .. 12] == IF k = 0 THEN <<0>> ELSE LET t == HeightsIn[k - 1] IN t \o t \o <<k>>
BeforeIn[k \in 0 .. 12] == IF k = 0 THEN <<0>> ELSE LET t == BeforeIn[k - 1] IN t \o [n \in DOMAIN t |-> t[n] + 2 ^ (k - 1)] \o <<2 ^ k>>
HeightTable == HeightsIn[12]
BeforeTable == BeforeIn[12]
\* Beyond the tables, walk down: the rest of the positions form such trees, side by side.
RECURSIVE Height(_)
Height(p) == IF p < 8191 THEN HeightTable[p + 1] ELSE LET m == MaxTree(p + 1) IN IF m = p + 1 THEN Log2(m + 1) - 1 ELSE Height(p - m)
RECURSIVE LeavesBefore(_)
LeavesBefore(p) == IF p < 8191 THEN BeforeTable[p + 1] ELSE LET m == MaxTree(p) IN ((m + 1) \div 2) + LeavesBefore(p - m)
IsRight(p) == Height(p + 1) = Height(p) + 1
Parent(p) == IF IsRight(p) THEN p + 1 ELSE p + Pow(Height(p) + 1)
Sibling(p) == IF IsRight(p) THEN p + 1 - Pow(Height(p) + 1) ELSE p + Pow(Height(p) + 1) - 1
LeftChild(p) == p - Pow(Height(p))
RightChild(p) == p - 1
RECURSIVE PeaksFrom(_, _, _)
PeaksFrom(at, left, h) == IF left = 0 THEN <<>>
                          ELSE LET m == MaxTree(left) IN IF m >= h THEN <<-1>> ELSE <<at + m - 1>> \o PeaksFrom(at + m, left - m, m)
Peaks(size) == LET q == PeaksFrom(0, size, size + 1) IN IF \E n \in DOMAIN q : q[n] = -1 THEN <<>> ELSE q
\* ---- building it
\* (folds, because TLC evaluates them eagerly)
UpTo(n) == [i \in 1 .. n |-> i]
Complete(nd, NodeHash(_, _, _)) ==
  LET RECURSIVE up(_)
      up(p) == IF Height(p) = 0 THEN 0 ELSE 1 + up(p + 1)
  IN FoldLeft(LAMBDA t, n : LET p == Len(t) IN Append(t, NodeHash(p, t[LeftChild(p) + 1], t[RightChild(p) + 1])), nd, UpTo(up(Len(nd))))
Grow(nd, d, LeafHash(_, _), NodeHash(_, _, _)) == Complete(Append(nd, LeafHash(Len(nd), d)), NodeHash)
GrowAll(nd, ds, LeafHash(_, _), NodeHash(_, _, _)) == FoldLeft(LAMBDA t, d : Grow(t, d, LeafHash, NodeHash), nd, ds)
\* the root over the first k leaves: the peaks, bagged from the right
Bag(nd, pk, size, acc, NodeHash(_, _, _)) == FoldLeft(LAMBDA a, p : NodeHash(size, nd[p + 1], a), acc, Reverse(pk))
RootOf(nd, k, NodeHash(_, _, _)) ==
  LET size == PosOf(k) pk == Peaks(size) IN
  IF k = 0 THEN 0 ELSE Bag(nd, SubSeq(pk, 1, Len(pk) - 1), size, nd[pk[Len(pk)] + 1], NodeHash)

\* ---- pruning: which positions may be left out when the given leaves are
FullSeq(S, size) == FoldLeft(LAMBDA t, n : Append(t, IF Height(n - 1) = 0 THEN LeavesBefore(n - 1) \in S ELSE t[n - 1] /\ t[LeftChild(n - 1) + 1]), <<>>, UpTo(size))
\* (binding q in a set makes TLC evaluate it once)
PrunedPos(S, size) == UNION {{p \in 0 .. size - 1 : q[p + 1]} : q \in {FullSeq(S, size)}}
RootsOf(P) == {p \in P : Parent(p) \notin P}

\* ---- operations
AppendAll(ds, LeafHash(_, _), NodeHash(_, _, _)) ==
  /\ leaf' = leaf \o ds /\ node' = GrowAll(node, ds, LeafHash, NodeHash)
  /\ live' = live \cup (Len(leaf) .. Len(leaf) + Len(ds) - 1) /\ UNCHANGED com
Spend(i) == IF i \in live THEN live' = live \ {i} /\ UNCHANGED <<leaf, node, com>> ELSE UNCHANGED avars
Rewind(n, add) == /\ leaf' = SubSeq(leaf, 1, n) /\ node' = SubSeq(node, 1, PosOf(n))
                  /\ live' = {i \in live \cup add : i < n} /\ UNCHANGED com
Commit == com' = [leaf |-> leaf, node |-> node, live |-> live] /\ UNCHANGED <<leaf, node, live>>
Discard == leaf' = com.leaf /\ node' = com.node /\ live' = com.live /\ UNCHANGED com
=============================================================================
