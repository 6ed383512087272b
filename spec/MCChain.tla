------------------------------ MODULE MCChain ------------------------------
(* Every delivery order of every block tree of the sizes below. *)
EXTENDS Chain
CONSTANTS N, MaxWork

\* A block is reduced to its place, its weight and what is wrong with it.
MkBlock(i, p, w, bad) ==
  LET pr == p IN
  [id |-> i, parent |-> p, height |-> 0, td |-> 0, ts |-> 0, bad |-> bad, work |-> w]

RECURSIVE Build(_, _, _)
Build(t, i, acc) ==
  IF i > N THEN acc
  ELSE LET d == t[i]
           p == acc[d.parent]
           rec == [id |-> i, parent |-> d.parent, height |-> p.height + 1, td |-> p.td + d.work, ts |-> p.ts + 1,
                   hok |-> d.bad # "header", sok |-> d.bad # "self", xok |-> d.bad # "context" /\ p.valid,
                   hchain |-> d.bad # "header" /\ p.hchain,
                   valid |-> d.bad = "none" /\ p.valid, utxo |-> <<>>, nout |-> p.nout + 1, nker |-> p.nker + 1,
                   path |-> Append(p.path, i), coinbaseOnly |-> TRUE, irr |-> "", isums |-> "", iroots |-> <<>>]
       IN  Build(t, i + 1, acc @@ (i :> rec))

Trees == {t \in [1 .. N -> [parent : 0 .. N - 1, work : 1 .. MaxWork, bad : {"none", "header", "self", "context"}]] :
            /\ \A i \in 1 .. N : t[i].parent < i
            /\ Cardinality({i \in 1 .. N : t[i].bad # "none"}) <= 1}

VARIABLES dlv, \* blocks delivered so far (body or compact)
          quiet \* everything has been delivered again, parents first
mvars == <<cvars, dlv, quiet>>

MCInit == /\ \E t \in Trees : blk = Build(t, 1, (0 :> GenesisBlock("", "")))
          /\ InitChain /\ dlv = {} /\ quiet = 0

HeaderLists == {q \in UNION {[1 .. k -> 1 .. N] : k \in 1 .. 2} : Len(q) = 1 \/ Par(q[2]) = q[1]}

MCNext ==
  \/ /\ quiet = 0
     /\ \/ \E b \in 1 .. N : AddBlock(b) /\ dlv' = dlv \cup {b} /\ UNCHANGED quiet
        \/ \E b \in 1 .. N : AddHeader(b) /\ UNCHANGED <<dlv, quiet>>
        \/ \E q \in HeaderLists : Len(q) = 2 /\ AddHeaders(q) /\ UNCHANGED <<dlv, quiet>>
        \/ NextOrphan /\ UNCHANGED <<dlv, quiet>>
        \/ RestartNode /\ UNCHANGED <<dlv, quiet>>
  \* the final round: process what waits, then deliver block quiet + 1
  \/ /\ dlv = 1 .. N
     /\ IF Connected(Now) # {} THEN NextOrphan /\ UNCHANGED <<dlv, quiet>>
        ELSE quiet < N /\ AddBlock(quiet + 1) /\ quiet' = quiet + 1 /\ UNCHANGED dlv
MCSpec == MCInit /\ [][MCNext]_mvars

\* C01: total difficulty never falls, and an equal fork never displaces the first.
Monotone == [][conf' # conf => Td(conf') > Td(conf)]_mvars
CandMonotone == [][cand' # cand => Td(cand') > Td(cand)]_mvars
\* C01: at the end the confirmed tip is the heaviest valid block delivered.
Final == (quiet = N /\ Connected(Now) = {}) => \A b \in 1 .. N : blk[b].valid => Td(b) <= Td(conf)
\* Without any second delivery: once nothing waits, everything connected was considered.
NoneStuck == (dlv = 1 .. N /\ Connected(Now) = {}) => \A b \in orph : ~blk[b].valid \/ ~(\A a \in Range(blk[b].path) \ {0} : a \in bdb \cup orph)
=============================================================================
