------------------------------- MODULE Pool -------------------------------
(***************************************************************************)
(* The transaction pools over a confirmed chain.  A transaction is what it *)
(* spends, creates and proves: [i, o, k] are sets of outputs and kernels,  *)
(* lock its greatest lock height, fok whether it pays the minimum fee,     *)
(* sok whether it is valid on its own.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS PMaturity, Embargo, Slack   \* a stem transaction is due after Embargo, and at the latest Slack later
VARIABLES bk,     \* block -> [parent, h, td, utxo, path, in, out, ker]
          tip,    \* confirmed tip
          mem,    \* the public pool, in order of arrival
          stem    \* the stem pool: [tx, st, at]
pvars == <<bk, tip, mem, stem>>

UnionOf(S) == UNION S
RangeOf(s) == {s[n] : n \in DOMAIN s}
PMax(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m

\* ---- aggregation: everything together, less what one part creates and another spends
Ins(S)  == UnionOf({t.i : t \in S})
Outs(S) == UnionOf({t.o : t \in S})
Kers(S) == UnionOf({t.k : t \in S})
AggI(S) == Ins(S) \ Outs(S)
AggO(S) == Outs(S) \ Ins(S)
Agg(S)  == [i |-> AggI(S), o |-> AggO(S), k |-> Kers(S), lock |-> MaxOf({t.lock : t \in S}), fok |-> TRUE, sok |-> TRUE]
Disjoint(S) == \A a, b \in S : a = b \/ (a.i \cap b.i = {} /\ a.o \cap b.o = {} /\ a.k \cap b.k = {})

\* ---- validity on the tip
Mature(u, o, next) == u[o].cb => u[o].h <= PMax(next, PMaturity) - PMaturity
Fits(i, o, b) == LET u == bk[b].utxo IN
  /\ \A x \in i : x \in DOMAIN u /\ Mature(u, x, bk[b].h + 1)
  /\ o \cap DOMAIN u = {}
Joint(S, b) == \/ S = {}
               \/ /\ Disjoint(S) /\ Fits(AggI(S), AggO(S), b)
                  /\ \A t \in S : t.lock <= bk[b].h + 1
\* The longest prefix-greedy jointly valid choice, next to what is there already.
RECURSIVE GreedyFrom(_, _, _, _, _)
GreedyFrom(q, n, acc, extra, b) ==
  IF n > Len(q) THEN acc
  ELSE GreedyFrom(q, n + 1, IF (\A m \in DOMAIN acc : acc[m] # q[n]) /\ Joint(RangeOf(acc) \cup extra \cup {q[n]}, b) THEN Append(acc, q[n]) ELSE acc, extra, b)
Greedy(q, extra, b) == GreedyFrom(q, 1, <<>>, extra, b)

Same(a, b) == a.i = b.i /\ a.o = b.o /\ a.k = b.k
InPool(t) == \E x \in RangeOf(mem) : Same(x, t)
InStem(t) == \E x \in RangeOf(stem) : Same(x.tx, t)
Conflicts(t) == \E x \in RangeOf(mem) : x.i \cap t.i # {} \/ x.o \cap t.o # {} \/ x.k \cap t.k # {}

\* ---- submitting
Welcome(t) == t.fok /\ t.lock <= bk[tip].h + 1 /\ t.sok /\ Fits(t.i, t.o, tip)
AcceptPublic(t) == ~InPool(t) /\ Welcome(t) /\ ~Conflicts(t)
AcceptStem(t) == ~InPool(t) /\ ~InStem(t) /\ Welcome(t)
Unveil(s, k) == SelectSeq(s, LAMBDA x : x.tx.k \cap k = {})
AddPublic(t) == IF AcceptPublic(t) THEN /\ mem' = Append(mem, t) /\ stem' = Unveil(stem, t.k) /\ UNCHANGED <<bk, tip>> ELSE UNCHANGED pvars
AddStem(t, now, choices) == IF AcceptStem(t) THEN /\ \E c \in choices : stem' = Append(stem, [tx |-> t, st |-> c, at |-> now]) /\ UNCHANGED <<bk, tip, mem>> ELSE UNCHANGED pvars

\* ---- the relay
OfStatus(c) == LET q == SelectSeq(stem, LAMBDA x : x.st = c) IN [n \in DOMAIN q |-> q[n].tx]
Chosen(c) == Greedy(OfStatus(c), RangeOf(mem), tip)
ToStem == LET s == RangeOf(Chosen("TO_STEM")) IN
  /\ stem' = [n \in DOMAIN stem |-> IF stem[n].tx \in s /\ stem[n].st = "TO_STEM" THEN [stem[n] EXCEPT !.st = "STEMMED"] ELSE stem[n]]
  /\ UNCHANGED <<bk, tip, mem>>
ToFluff == LET s == RangeOf(Chosen("TO_FLUFF")) IN
  IF s = {} THEN UNCHANGED pvars
  ELSE /\ mem' = Append(mem, Agg(s)) /\ stem' = SelectSeq(stem, LAMBDA x : x.tx \notin s) /\ UNCHANGED <<bk, tip>>
Due(now, r) == SelectSeq(stem, LAMBDA x : now - x.at > Embargo + r)
\* What a peer may see.
Found(k) == {t \in RangeOf(mem) : k \in t.k}

\* ---- blocks
Extends(b, p) == p = bk[b].path[Len(bk[p].path)] /\ Len(bk[p].path) < Len(bk[b].path)
NewlyConfirmed(b) == RangeOf(bk[b].path) \ RangeOf(bk[tip].path)
Survives(t, bs) == \A b \in bs : t.i \cap bk[b].in = {} /\ t.k \cap bk[b].ker = {}
Confirm(b) ==
  LET bs == NewlyConfirmed(b)
      m == Greedy(SelectSeq(mem, LAMBDA t : Survives(t, bs)), {}, b)
      s == SelectSeq(stem, LAMBDA x : Survives(x.tx, bs))
      keep == Greedy([n \in DOMAIN s |-> s[n].tx], RangeOf(m), b)
  IN /\ tip' = b /\ mem' = m
     /\ stem' = SelectSeq(s, LAMBDA x : x.tx \in RangeOf(keep))
     /\ UNCHANGED bk
Wins(b) == bk[b].parent = tip \/ bk[b].td > bk[tip].td
Deliver(b) == IF Wins(b) THEN Confirm(b) ELSE UNCHANGED pvars

\* ---- expanding a compact block from the pool
Sum(S, Op(_)) == LET RECURSIVE f(_)
                     f(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Op(x) + f(T \ {x})
                 IN f(S)
Expands(b) ==
  LET ids == bk[b].ker \ {bk[b].cbker}
      hit == {t \in RangeOf(mem) : t.k \cap ids # {}}
      cnt == Sum(hit, LAMBDA t : Cardinality(t.k \cap ids))
      o == Outs(hit) \cup bk[b].cbout
  IN \/ ids = {} /\ bk[b].in = {} /\ bk[b].out = bk[b].cbout
     \/ /\ cnt = Cardinality(ids)
        /\ Kers(hit) = ids
        /\ Ins(hit) \ o = bk[b].in /\ o \ Ins(hit) = bk[b].out

\* ---- properties
PoolValid == Joint(RangeOf(mem), tip)                                   \* C06
PoolSound == \A t \in RangeOf(mem) : t.fok /\ t.sok
StemPrivate == \A x \in RangeOf(stem) : ~InPool(x.tx)                   \* C07
=============================================================================
