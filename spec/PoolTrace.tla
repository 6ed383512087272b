----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, Json, IOUtils
CONSTANT MODE
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, prob, lk     \* lk: kernel -> lock height
tvars == <<pvars, l, prob, lk>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
R(x) == [i |-> RangeOf(x.i), o |-> RangeOf(x.o), k |-> RangeOf(x.k)]
Bare(t) == [i |-> t.i, o |-> t.o, k |-> t.k]
Once(x) == Cardinality(RangeOf(x.i)) = Len(x.i) /\ Cardinality(RangeOf(x.o)) = Len(x.o) /\ Cardinality(RangeOf(x.k)) = Len(x.k)
RECURSIVE Total(_, _, _)
Total(s, f, n) == IF n > Len(s) THEN 0 ELSE s[n][f] + Total(s, f, n + 1)
Shift(q) == MaxOf({0} \cup {q[n][6] : n \in DOMAIN q})
Pow2(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE IF n = 2 THEN 4 ELSE 8
MinFee(d) == 5 * PMax(4 * Len(d.out) + Len(d.ker) - Len(d.in), 1) * Pow2(Shift(d.ker))
Firsts(q) == {q[n][1] : n \in DOMAIN q}
Distinct(q) == Cardinality(Firsts(q)) = Len(q)
\* from the description of a submitted transaction
FromDesc(d) ==
  [i |-> Firsts(d.in), o |-> Firsts(d.out), k |-> Firsts(d.ker), lock |-> MaxOf({0} \cup {d.ker[n][4] : n \in DOMAIN d.ker}),
   fok |-> Total(d.ker, 3, 1) >= MinFee(d),
   sok |-> /\ d.bal /\ Total(d.in, 2, 1) = Total(d.out, 3, 1) + Total(d.ker, 3, 1)
           /\ Distinct(d.in) /\ Distinct(d.out) /\ Distinct(d.ker) /\ Firsts(d.in) \cap Firsts(d.out) = {}
           /\ \A n \in DOMAIN d.out : d.out[n][2] = 0 /\ d.out[n][4] = 1
           /\ \A n \in DOMAIN d.ker : d.ker[n][2] # 1 /\ d.ker[n][5] = 1
           /\ Len(d.in) + 21 * Len(d.out) + 3 * Len(d.ker) + 24 <= 40000]
\* ---- what was observed after the step
SeenMem == {R(x) : x \in RangeOf(E.mp)}
SeenStem == [n \in DOMAIN E.st |-> R(E.st[n])]
Agree == /\ Ok("public pool", {Bare(t) : t \in RangeOf(mem')} = SeenMem /\ Len(E.mp) = Len(mem'))
         /\ (MODE = "C07") => Ok("stem pool", [n \in DOMAIN stem' |-> Bare(stem'[n].tx)] = SeenStem)
         /\ Ok("tip", tip' = E.c)
\* the other modes take the stem pool from the model, but only as far as it is there
Choices == IF prob = 100 THEN {"TO_STEM"} ELSE {"TO_STEM", "TO_FLUFF"}

TReset == /\ E.e = "Reset" /\ prob' = E.prob /\ tip' = 0 /\ mem' = <<>> /\ stem' = <<>>
          /\ bk' = (0 :> [parent |-> -1, h |-> 0, td |-> 0, utxo |-> (0 :> [h |-> 0, cb |-> TRUE]), path |-> <<0>>, in |-> {}, out |-> {0}, ker |-> {0}, cbker |-> 0, cbout |-> {0}])
          /\ Ok("empty", E.mp = <<>> /\ E.st = <<>>)
TBlock == /\ E.e = "Block" /\ UNCHANGED <<tip, mem, stem, prob>>
          /\ LET p == bk[E.parent]
                 in == RangeOf(E.in)
                 outs == Firsts(E.out)
                 cbs == {E.out[n][1] : n \in {m \in DOMAIN E.out : E.out[m][2] = 1}}
                 new == [o \in outs |-> [h |-> E.h, cb |-> o \in cbs]]
             IN bk' = bk @@ (E.id :> [parent |-> E.parent, h |-> E.h, td |-> E.td, utxo |-> new @@ [o \in (DOMAIN p.utxo) \ in |-> p.utxo[o]],
                                      path |-> Append(p.path, E.id), in |-> in, out |-> outs, ker |-> RangeOf(E.ker), cbker |-> CHOOSE k \in RangeOf(E.ker) : k = E.cbk, cbout |-> cbs])
TTrunk == /\ E.e = "Trunk" /\ tip' = E.c /\ UNCHANGED <<bk, mem, stem, prob>> /\ Agree
TSubmit == LET t == FromDesc(E.tx)
               yes == IF E.stem THEN AcceptStem(t) ELSE AcceptPublic(t)
           IN /\ E.e = "Submit" /\ UNCHANGED prob
              /\ Ok("accepted", (E.r = "SUCCESS") = yes)
              /\ Ok("blamed", E.r = "INVALID" => ~t.sok)
              /\ IF E.stem THEN AddStem(t, E.now, Choices) ELSE AddPublic(t)
              /\ Agree
TFluff == LET q == SelectSeq(stem, LAMBDA x : Bare(x.tx) = R(E.tx)) IN
          /\ E.e = "Fluff" /\ UNCHANGED prob
          /\ IF q = <<>> THEN Ok("fluffing what is gone", E.r # "SUCCESS") /\ UNCHANGED pvars
             ELSE Ok("fluffed", (E.r = "SUCCESS") = AcceptPublic(q[1].tx)) /\ AddPublic(q[1].tx)
          /\ Agree
TToStem == LET s == RangeOf(Chosen("TO_STEM")) IN
           /\ E.e = "ToStem" /\ ToStem /\ UNCHANGED prob
           /\ Ok("stemming", E.got = (s # {}))
           /\ E.got => Ok("stemmed", R(E.tx) = Bare(Agg(s)) /\ Once(E.tx) /\ E.valid)
           /\ Agree
TToFluff == LET s == RangeOf(Chosen("TO_FLUFF")) IN
            /\ E.e = "ToFluff" /\ ToFluff /\ UNCHANGED prob
            /\ Ok("fluffing", E.got = (s # {}))
            /\ E.got => Ok("fluffed", R(E.tx) = Bare(Agg(s)) /\ Once(E.tx) /\ E.valid)
            /\ Agree
TExpired == /\ E.e = "Expired" /\ UNCHANGED <<pvars, prob>>
            /\ (MODE = "C07") => Ok("embargo", \E r \in 0 .. Slack : LET q == Due(E.now, r) IN [n \in DOMAIN q |-> Bare(q[n].tx)] = [n \in DOMAIN E.txs |-> R(E.txs[n])])
            /\ Agree
TLookup == /\ E.e = "Lookup" /\ UNCHANGED <<pvars, prob>>
           /\ Ok("visible to peers", E.got = (Found(E.k) # {}))
           /\ E.got => Ok("found", R(E.tx) \in {Bare(t) : t \in Found(E.k)})
           /\ Agree
TAddBlock == /\ E.e = "AddBlock" /\ UNCHANGED prob /\ Ok("block", E.r = "SUCCESS" /\ E.same) /\ Deliver(E.b) /\ Agree
TCompact == /\ E.e = "Compact" /\ UNCHANGED prob
            /\ Ok("compact block", E.r = (IF Expands(E.b) THEN "SUCCESS" ELSE "TRANSACTIONS_MISSING"))
            /\ Ok("the block it was made from", E.same)
            /\ IF E.r = "SUCCESS" THEN Deliver(E.b) ELSE UNCHANGED pvars
            /\ Agree
TAggregate == /\ E.e = "Aggregate" /\ UNCHANGED <<pvars, prob>>
              /\ LET s == {R(x) : x \in RangeOf(E.parts)} IN
                 Ok("aggregate", R(E.tx) = [i |-> AggI(s), o |-> AggO(s), k |-> Kers(s)] /\ Once(E.tx) /\ E.off /\ E.valid)
              /\ Agree
TStep == TReset \/ TBlock \/ TTrunk \/ TSubmit \/ TFluff \/ TToStem \/ TToFluff \/ TExpired \/ TLookup \/ TAddBlock \/ TCompact \/ TAggregate
TInit == bk = <<>> /\ tip = 0 /\ mem = <<>> /\ stem = <<>> /\ l = 1 /\ prob = 0 /\ lk = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1 /\ UNCHANGED lk
TSpec == TInit /\ [][TNext]_tvars
Valid == l > 1 => PoolValid /\ PoolSound
Private == StemPrivate
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
