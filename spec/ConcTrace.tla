----------------------------- MODULE ConcTrace -----------------------------
(* Several threads on one node: whatever the order, every look under shared locks shows the state of exactly   *)
(* one valid block, no thread sees the total difficulty go down, and in the end the heaviest valid chain is    *)
(* confirmed.                                                                                                  *)
EXTENDS Chain, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen, best   \* per thread: greatest difficulty seen; heaviest chain at rest
tvars == <<cvars, l, seen, best>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Contents(s) ==
  LET u == blk[s.c].utxo IN
  /\ Ok("valid block", blk[s.c].valid)
  /\ Ok("positions", Range(s.pos) = {<<o, u[o].leaf, u[o].h>> : o \in DOMAIN u})
  /\ Ok("outputs", Range(s.set) = {<<o, u[o].leaf, u[o].h, IF u[o].cb THEN 1 ELSE 0, TRUE>> : o \in DOMAIN u})
  /\ Ok("outputs once", Len(s.set) = Cardinality(DOMAIN u))
  /\ Ok("kernels", s.nk = blk[s.c].nker)
  /\ Ok("roots", s.rv)
  /\ Ok("flushed", s.fl = s.c)
  /\ Ok("sums", s.c = Genesis \/ s.sums = blk[s.c].isums)
Fresh(th, td) == Ok("monotone", th \in DOMAIN seen => td >= seen[th]) /\ seen' = (th :> td) @@ seen
Same == UNCHANGED <<cand, conf, hdb, bdb, orph, ohdr>>
TReset == E.e = "Reset" /\ blk' = (Genesis :> GenesisBlock(E.s.hroot, E.s.sums)) /\ seen' = <<>> /\ Same
TBlock == E.e = "Block" /\ blk' = blk @@ (E.id :> Defined(E, blk[E.parent])) /\ UNCHANGED seen /\ Same
TTrunk == E.e = "Trunk" /\ Ok("trunk", E.s.c = E.bs[Len(E.bs)]) /\ UNCHANGED <<blk, seen>> /\ Same
TView == E.e = "View" /\ Ok("one block", E.s.c \in DOMAIN blk) /\ Contents(E.s) /\ Ok("stored", E.s.stored /\ E.s.header) /\ Fresh(E.th, Td(E.s.c)) /\ UNCHANGED blk /\ Same
         /\ Ok("header accumulator", E.s.hm \in {"", blk[Genesis].irr} /\ (E.s.hl = "" \/ E.s.hl = blk[1].irr))
\* the tip and the difficulty are two calls: a later tip may come between them
TTip == E.e = "Tip" /\ Ok("known", E.b \in DOMAIN blk) /\ Ok("valid", blk[E.b].valid) /\ Ok("difficulty", E.td >= Td(E.b)) /\ Fresh(E.th, E.td) /\ UNCHANGED blk /\ Same
TDid == E.e = "Did" /\ Ok("accepted only if valid", E.r = "SUCCESS" => blk[E.b].valid) /\ UNCHANGED <<blk, seen>> /\ Same
TQuiesce == E.e = "Quiesce" /\ Ok("heaviest", \A b \in DOMAIN blk : blk[b].valid => Td(b) <= Td(E.s.c)) /\ Contents(E.s) /\ UNCHANGED <<blk, seen>> /\ Same
            /\ Ok("stored valid", \A b \in Range(E.s.bdb) : blk[b].valid) /\ Ok("path", E.s.cby = blk[E.s.c].path)
            /\ Ok("candidate", E.s.h \in DOMAIN blk /\ (\A b \in DOMAIN blk : blk[b].hchain => Td(b) <= Td(E.s.h)) /\ E.s.hby = blk[E.s.h].path /\ E.s.hroot = blk[E.s.h].irr)
TStuck == E.e = "Stuck" /\ Ok("progress", FALSE) /\ UNCHANGED <<blk, seen>> /\ Same
TStep == TReset \/ TBlock \/ TTrunk \/ TView \/ TTip \/ TDid \/ TQuiesce \/ TStuck
TInit == blk = (Genesis :> GenesisBlock("", "")) /\ InitChain /\ l = 1 /\ seen = <<>> /\ best = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1 /\ UNCHANGED best
TSpec == TInit /\ [][TNext]_tvars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
