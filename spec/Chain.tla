------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The node's chain state: header chain, confirmed chain, stored and       *)
(* orphaned blocks, and what every block does to the set of unspent        *)
(* outputs.  Validity of a block is decided here from its content; the     *)
(* processing steps follow one delivery each, as the node's entry points   *)
(* do, and are written as functions from a state record to a state record  *)
(* so that several of them can be composed inside one step.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Reward,      \* in the unit amounts are given in
          Maturity,    \* blocks until a coinbase output may be spent
          MaxWeight,
          Version      \* the header version due at every height used here

VARIABLES blk,         \* id -> everything known about a defined block
          cand,        \* tip of the candidate (header) chain
          conf,        \* tip of the confirmed chain
          hdb,         \* headers stored
          bdb,         \* bodies stored (validated on their own chain)
          orph,        \* bodies waiting for an ancestor
          ohdr         \* headers waiting for an ancestor
cvars == <<blk, cand, conf, hdb, bdb, orph, ohdr>>

Genesis == 0
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Sum(s) == SumSeq(s, 1)
Range(s) == {s[i] : i \in DOMAIN s}
Injective(s) == Cardinality(Range(s)) = Len(s)

(***************************************************************************)
(* Content of a block: inputs <<output, feature, value>>, outputs          *)
(* <<output, coinbase, value, proof ok>>, kernels <<id, feature, fee,      *)
(* lock height, signature ok>>; feature 1 is coinbase, 2 height locked.    *)
(***************************************************************************)
Ins(d)  == {d.in[i][1] : i \in DOMAIN d.in}
Outs(d) == {d.out[i][1] : i \in DOMAIN d.out}
Fees(d) == Sum([i \in DOMAIN d.ker |-> d.ker[i][3]])
Weight(d) == Len(d.in) + 21 * Len(d.out) + 3 * Len(d.ker)
CbValue(d) == Sum([i \in DOMAIN d.out |-> IF d.out[i][2] = 1 THEN d.out[i][3] ELSE 0])
OutValue(d) == Sum([i \in DOMAIN d.out |-> d.out[i][3]])
InValue(d)  == Sum([i \in DOMAIN d.in |-> d.in[i][3]])

HeaderOK(d, p) == /\ d.height = p.height + 1
                  /\ d.ts > p.ts
                  /\ ~d.future
                  /\ d.ver = Version
                  /\ d.td > p.td
                  /\ d.hroot = d.ihroot

\* What can be checked of a block on its own.
SelfOK(d) == /\ Weight(d) <= MaxWeight
             /\ \A i \in DOMAIN d.ker : d.ker[i][4] <= d.height
             /\ d.sorted
             /\ Injective([i \in DOMAIN d.in |-> d.in[i][1]])
             /\ Injective([i \in DOMAIN d.out |-> d.out[i][1]])
             /\ Injective([i \in DOMAIN d.ker |-> d.ker[i][1]])
             /\ Ins(d) \cap Outs(d) = {}
             /\ \A i \in DOMAIN d.out : d.out[i][4] = 1
             /\ \A i \in DOMAIN d.ker : d.ker[i][5] = 1
             /\ CbValue(d) = Reward + Fees(d)
             /\ d.cbb

\* What needs the unspent outputs of its parent.
ContextOK(d, p) == /\ \A o \in Ins(d) : /\ o \in DOMAIN p.utxo
                                        /\ p.utxo[o].cb => p.utxo[o].h <= Max(d.height, Maturity) - Maturity
                   /\ Outs(d) \cap DOMAIN p.utxo = {}
                   /\ d.roots = d.iroots
                   /\ OutValue(d) - InValue(d) = Reward
                   /\ d.off /\ d.bal

\* Everything the rest of the specification needs to know of a newly defined block.
Defined(d, p) ==
  LET new == [o \in Outs(d) |-> LET i == CHOOSE i \in DOMAIN d.out : d.out[i][1] = o
                                IN  [leaf |-> p.nout + i - 1, h |-> d.height, cb |-> d.out[i][2] = 1]]
      left == [o \in (DOMAIN p.utxo) \ Ins(d) |-> p.utxo[o]]
      hok == HeaderOK(d, p)
      sok == SelfOK(d)
      xok == ContextOK(d, p)
  IN  [id |-> d.id, parent |-> d.parent, height |-> d.height, td |-> d.td, ts |-> d.ts,
       hok |-> hok, sok |-> sok, xok |-> xok, hchain |-> hok /\ p.hchain, valid |-> hok /\ sok /\ xok /\ p.valid,
       utxo |-> new @@ left, nout |-> p.nout + Len(d.out), nker |-> p.nker + Len(d.ker),
       path |-> Append(p.path, d.id), coinbaseOnly |-> Len(d.in) = 0 /\ (\A n \in DOMAIN d.out : d.out[n][2] = 1) /\ (\A n \in DOMAIN d.ker : d.ker[n][2] = 1),
       irr |-> d.irr, isums |-> d.isums, iroots |-> d.iroots]

OnPath(tip, b) == LET k == blk[b].height + 1 IN k <= Len(blk[tip].path) /\ blk[tip].path[k] = b
Td(b) == blk[b].td
Par(b) == blk[b].parent

(***************************************************************************)
(* Headers                                                                 *)
(***************************************************************************)
St(r) == [r EXCEPT !.res = "NONE"]
\* Headers from the candidate chain (exclusive) to b, or <<>> when one is missing.
RECURSIVE HdrWalk(_, _, _)
HdrWalk(s, b, acc) ==
  IF OnPath(s.cand, b) THEN acc
  ELSE IF b # Genesis /\ (Par(b) \in s.ohdr \/ Par(b) \in s.hdb) THEN HdrWalk(s, Par(b), <<b>> \o acc)
  ELSE <<>>

ProcHeader(s, b) ==
  IF b \in s.hdb THEN [s EXCEPT !.res = "ALREADY_EXISTS"]
  ELSE IF Par(b) = s.cand
    THEN IF blk[b].hok THEN [s EXCEPT !.cand = b, !.hdb = @ \cup {b}, !.res = "SUCCESS"]
                       ELSE [s EXCEPT !.res = "BAD_DATA"]
  ELSE LET w == HdrWalk(s, b, <<>>) IN
    IF w = <<>> THEN [s EXCEPT !.ohdr = @ \cup {b}, !.res = "ORPHANED"]
    ELSE IF \E i \in DOMAIN w : ~blk[w[i]].hok THEN [s EXCEPT !.res = "BAD_DATA"]
    ELSE [s EXCEPT !.cand = IF Td(b) > Td(s.cand) THEN b ELSE @, !.hdb = @ \cup Range(w), !.res = "SUCCESS"]

ProcHeaders(s, q) ==
  IF \E i \in 2 .. Len(q) : blk[q[i]].height # blk[q[i - 1]].height + 1 THEN [s EXCEPT !.res = "BAD_DATA"]
  ELSE IF ~(OnPath(s.cand, Par(q[1])) /\ blk[q[1]].height = blk[Par(q[1])].height + 1) THEN [s EXCEPT !.res = "UNKNOWN_ERROR"]
  ELSE LET fresh == {i \in DOMAIN q : \E j \in 1 .. i : ~OnPath(s.cand, q[j])} IN
    IF fresh = {} THEN [s EXCEPT !.res = "SUCCESS"]
    ELSE IF \E i \in fresh : ~blk[q[i]].hok \/ (i > 1 /\ Par(q[i]) # q[i - 1]) THEN [s EXCEPT !.res = "BAD_DATA"]
    ELSE [s EXCEPT !.cand = IF Td(q[Len(q)]) > Td(s.cand) THEN q[Len(q)] ELSE @,
                   !.hdb = @ \cup {q[i] : i \in fresh}, !.res = "SUCCESS"]

(***************************************************************************)
(* Blocks                                                                  *)
(***************************************************************************)
RECURSIVE BodyWalk(_, _, _)
BodyWalk(s, b, acc) ==
  IF OnPath(s.conf, Par(b)) THEN <<b>> \o acc
  ELSE IF Par(b) \in s.orph \/ Par(b) \in s.bdb THEN BodyWalk(s, Par(b), <<b>> \o acc)
  ELSE <<>>

ProcBody(s, b) ==
  IF OnPath(s.conf, b) \/ b \in s.bdb THEN [s EXCEPT !.res = "ALREADY_EXISTS"]
  ELSE LET w == IF b \in s.hdb THEN BodyWalk(s, b, <<>>) ELSE <<>> IN
    IF w = <<>> THEN IF b \in s.orph THEN [s EXCEPT !.res = "ALREADY_EXISTS"]
                     ELSE [s EXCEPT !.orph = @ \cup {b}, !.ohdr = @ \cup {b}, !.res = "ORPHANED"]
    ELSE IF \E i \in DOMAIN w : ~blk[w[i]].xok THEN [s EXCEPT !.res = "BAD_DATA"]
    ELSE [s EXCEPT !.conf = IF Par(b) = s.conf \/ Td(b) > Td(s.conf) THEN b ELSE @,
                   !.bdb = @ \cup Range(w), !.orph = @ \ Range(w), !.res = "SUCCESS"]

ProcBlock(s, b) ==
  LET s1 == ProcHeader(s, b) IN
  IF s1.res = "BAD_DATA" THEN s1
  ELSE IF ~blk[b].sok THEN [s1 EXCEPT !.res = "BAD_DATA"]
  ELSE ProcBody(s1, b)

\* Orphans that have become connected; any of them may be taken next.
Connected(s) == {b \in s.orph : OnPath(s.conf, Par(b)) \/ Par(b) \in s.bdb}
ProcOrphan(s, b) ==
  LET s1 == ProcBlock(s, b) IN
  IF s1.res = "SUCCESS" THEN s1 ELSE [s1 EXCEPT !.orph = @ \ {b}, !.res = "NONE"]

\* A compact block holding nothing but its coinbase needs no other transaction; the rest of any other has to be found first.
ProcCompact(s, b) ==
  IF OnPath(s.conf, b) THEN [s EXCEPT !.res = "ALREADY_EXISTS"]
  ELSE IF ~blk[b].coinbaseOnly THEN [s EXCEPT !.res = "TRANSACTIONS_MISSING"]
  ELSE LET s1 == ProcBlock(s, b) IN IF s1.res = "BAD_DATA" THEN [s1 EXCEPT !.res = "TRANSACTIONS_MISSING"] ELSE s1

\* Bodies the node still asks for, in order.
CommonHeight(s) == CHOOSE h \in 0 .. Len(blk[s.conf].path) - 1 :
   /\ h + 1 <= Len(blk[s.cand].path) /\ blk[s.cand].path[h + 1] = blk[s.conf].path[h + 1]
   /\ \A k \in h + 2 .. Len(blk[s.conf].path) : ~(k <= Len(blk[s.cand].path) /\ blk[s.cand].path[k] = blk[s.conf].path[k])
Needed(s) == SelectSeq(SubSeq(blk[s.cand].path, CommonHeight(s) + 2, Len(blk[s.cand].path)), LAMBDA b : b \notin s.orph)

Now == [cand |-> cand, conf |-> conf, hdb |-> hdb, bdb |-> bdb, orph |-> orph, ohdr |-> ohdr, res |-> "NONE"]
Become(s) == /\ cand' = s.cand /\ conf' = s.conf /\ hdb' = s.hdb /\ bdb' = s.bdb /\ orph' = s.orph /\ ohdr' = s.ohdr

GenesisBlock(irr, isums) ==
  [id |-> Genesis, parent |-> -1, height |-> 0, td |-> 0, ts |-> 0, hok |-> TRUE, sok |-> TRUE, xok |-> TRUE, hchain |-> TRUE, valid |-> TRUE,
   utxo |-> (0 :> [leaf |-> 0, h |-> 0, cb |-> TRUE]), nout |-> 1, nker |-> 1, path |-> <<Genesis>>, coinbaseOnly |-> TRUE,
   irr |-> irr, isums |-> isums, iroots |-> <<>>]
InitChain == /\ cand = Genesis /\ conf = Genesis /\ hdb = {Genesis} /\ bdb = {} /\ orph = {} /\ ohdr = {}

(***************************************************************************)
(* The actions                                                             *)
(***************************************************************************)
AddBlock(b)    == Become(ProcBlock(Now, b)) /\ UNCHANGED blk
AddHeader(b)   == Become(ProcHeader(Now, b)) /\ UNCHANGED blk
AddHeaders(q)  == Become(ProcHeaders(Now, q)) /\ UNCHANGED blk
AddCompact(b)  == Become(ProcCompact(Now, b)) /\ UNCHANGED blk
NextOrphan     == \E b \in Connected(Now) : Become(ProcOrphan(Now, b)) /\ UNCHANGED blk
RestartNode    == Become([Now EXCEPT !.orph = {}, !.ohdr = {}]) /\ UNCHANGED blk

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C01, C03: only blocks valid on their own chain are ever confirmed.
ConfirmedValid == /\ blk[conf].valid /\ \A b \in Range(blk[conf].path) \ {Genesis} : b \in bdb
                  /\ \A b \in bdb : blk[b].valid
\* C04: the header chain holds only valid headers, and is the heaviest known.
HeadersValid == \A b \in hdb : blk[b].hchain
CandidateHeaviest == \A b \in hdb : Td(b) <= Td(cand)
CandidateStored == \A b \in Range(blk[cand].path) : b \in hdb
\* The confirmed chain is the heaviest of the connected valid ones.
ConfirmedHeaviest == \A b \in bdb : Td(b) <= Td(conf)
\* C02, C03: conservation: the unspent outputs hold the reward of every block.
=============================================================================
