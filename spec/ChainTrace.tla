----------------------------- MODULE ChainTrace -----------------------------
(* Recorded runs of the real node, replayed against Chain: each recorded call   *)
(* is the specification's own step; MODE picks the fields a check compares.     *)
EXTENDS Chain, Json, IOUtils
CONSTANT MODE
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tip0   \* position; tip confirmed before this step (for monotonicity)
tvars == <<cvars, l>>

E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Refusals == {"BAD_DATA", "INVALID", "EXCEPTION"}
Class(r) == IF r \in Refusals THEN "REFUSED" ELSE r
Set(q) == Range(q)

\* ---- what each check compares; p is the predicted state, s the observed one
Selected(p, s) ==
  /\ Ok("confirmed tip", s.c = p.conf)
  /\ Ok("stored blocks", Set(s.bdb) = p.bdb)
  /\ Ok("orphans", Set(s.orph) = p.orph \cap Set(s.hdb))  \* a waiting body shows once its header is stored
  /\ Ok("confirmed height", s.ch = blk[p.conf].height)
  /\ Ok("confirmed difficulty", s.ctd = Td(p.conf))
  /\ Ok("confirmed by height", s.cby = blk[p.conf].path)
Asked(p, s) == p.cand \in DOMAIN blk => Ok("needed", s.need = Needed(p))
Contents(s) ==
  LET u == blk[s.c].utxo IN
  /\ Ok("positions", Set(s.pos) = {<<o, u[o].leaf, u[o].h>> : o \in DOMAIN u})
  /\ Ok("outputs", Set(s.set) = {<<o, u[o].leaf, u[o].h, IF u[o].cb THEN 1 ELSE 0, TRUE>> : o \in DOMAIN u})
  /\ Ok("outputs once", Len(s.set) = Cardinality(DOMAIN u))
  /\ Ok("kernels", s.nk = blk[s.c].nker)
  /\ Ok("roots", s.rv)
  /\ Ok("flushed", s.fl = s.c)
  /\ Ok("sums", s.c = Genesis \/ s.sums = blk[s.c].isums)
Safe(s) ==
  /\ Ok("confirmed block known", s.c \in DOMAIN blk)
  /\ Ok("confirmed chain valid", blk[s.c].valid)
  /\ Ok("stored blocks valid", \A b \in Set(s.bdb) : blk[b].valid)
Headers(p, s) ==
  /\ Ok("candidate tip", s.h = p.cand)
  /\ Ok("headers", Set(s.hdb) = p.hdb)
  /\ Ok("header by height", s.hby = blk[p.cand].path)
  /\ Ok("header root", s.hroot = blk[p.cand].irr)
  /\ Ok("candidate difficulty", s.htd = Td(p.cand))
  /\ Ok("candidate height", s.hh = blk[p.cand].height)
Result(p) == Ok("result", Class(E.r) = Class(p.res))
HeaderResult(p) == Ok("header result", (Class(E.r) = "REFUSED") = (Class(p.res) = "REFUSED") /\ (E.r = "SUCCESS") = (p.res = "SUCCESS"))

Compare(p, isBlock, isHeader) ==
  LET s == E.s IN
  CASE MODE = "C01" -> Safe(s) /\ Selected(p, s) /\ Asked(p, s) /\ (isBlock => Result(p))
    [] MODE = "C02" -> Safe(s) => Contents(s)
    [] MODE = "C03" -> Safe(s) /\ Selected(p, s) /\ (isBlock => Result(p))
    [] MODE = "C04" -> Headers(p, s) /\ (isHeader => HeaderResult(p))
    [] MODE = "C05" -> E.e \in {"Restart", "Reset"} => Selected(p, s) /\ Headers(p, s) /\ Contents(s)
    [] MODE = "C08" -> (E.e = "AddCompact") => Selected(p, s) /\ Result(p)
    [] OTHER -> FALSE
\* The state the run goes on from is the one observed.
Take(p, isBlock, isHeader) ==
  /\ Compare(p, isBlock, isHeader)
  /\ conf' = E.s.c /\ cand' = E.s.h /\ hdb' = Set(E.s.hdb) /\ bdb' = Set(E.s.bdb) /\ orph' = Set(E.s.orph) \cup (p.orph \ Set(E.s.hdb)) /\ ohdr' = p.ohdr
  /\ UNCHANGED blk

TReset == /\ E.e = "Reset"
          /\ blk' = (Genesis :> GenesisBlock(E.s.hroot, E.s.sums))
          /\ Ok("fresh node", E.s.c = Genesis /\ E.s.h = Genesis /\ E.s.rv /\ E.s.nk = 1)
          /\ cand' = Genesis /\ conf' = Genesis /\ hdb' = {Genesis} /\ bdb' = {} /\ orph' = {} /\ ohdr' = {}
TBlock == /\ E.e = "Block"
          /\ blk' = blk @@ (E.id :> Defined(E, blk[E.parent]))
          /\ UNCHANGED <<cand, conf, hdb, bdb, orph, ohdr>>
RECURSIVE AddAll(_, _, _)
AddAll(s, q, i) == IF i > Len(q) THEN s ELSE AddAll(ProcBlock(s, q[i]), q, i + 1)
\* Which orphan is next is the node's business, but it must be one that is connected.
TOrphan == LET c == Connected(Now) IN
  IF c = {} THEN /\ Ok("no orphan due", E.r = FALSE) /\ Take([Now EXCEPT !.res = "NONE"], FALSE, FALSE)
  ELSE LET fits == {b \in c : LET p == ProcOrphan(Now, b) IN p.bdb = Set(E.s.bdb) /\ (p.orph \cap Set(E.s.hdb)) = Set(E.s.orph) /\ p.conf = E.s.c}
           b == CHOOSE b \in (IF fits # {} THEN fits ELSE c) : TRUE
           p == ProcOrphan(Now, b)
       IN  /\ (MODE \in {"C01", "C03"}) => Ok("orphan result", E.r = (p.res = "SUCCESS"))
           /\ Take(p, FALSE, FALSE)
\* Once everything was delivered and nothing waits, the heaviest valid block is confirmed.
Best == \A b \in DOMAIN blk : blk[b].valid => Td(b) <= Td(conf)
TRoots == /\ E.e = "Roots" /\ (MODE \in {"C02", "C05"} /\ conf # Genesis /\ blk[conf].valid => Ok("roots to mine on", E.roots = blk[conf].iroots)) /\ UNCHANGED cvars

TStep ==
  \/ TReset \/ TBlock \/ TRoots
  \/ E.e = "Trunk" /\ Take(AddAll(Now, E.bs, 1), FALSE, FALSE)
  \/ E.e = "AddBlock" /\ Take(ProcBlock(Now, E.b), TRUE, FALSE)
  \/ E.e = "AddCompact" /\ Take(ProcCompact(Now, E.b), TRUE, FALSE)
  \/ E.e = "AddHeader" /\ Take(ProcHeader(Now, E.b), FALSE, TRUE)
  \/ E.e = "AddHeaders" /\ Take(ProcHeaders(Now, E.bs), FALSE, TRUE)
  \/ E.e = "Orphan" /\ TOrphan
  \/ E.e = "Restart" /\ Take([Now EXCEPT !.orph = {}, !.ohdr = {}], FALSE, FALSE)
  \/ E.e = "Drained" /\ Take(Now, FALSE, FALSE) /\ (MODE = "C01" => Ok("nothing waits", Connected(Now) = {}))
  \/ E.e = "Quiesce" /\ Take(Now, FALSE, FALSE) /\ (MODE = "C01" => Ok("heaviest valid chain confirmed", Best))
TInit == blk = (Genesis :> GenesisBlock("", "")) /\ InitChain /\ l = 1 /\ tip0 = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1 /\ tip0' = conf
TSpec == TInit /\ [][TNext]_<<tvars, tip0>>
View == l
\* The specification's own invariants, on what the node did.
MonotoneStep == [][MODE \notin {"C01", "C03"} \/ E.e = "Reset" \/ conf' = conf \/ blk'[conf'].td > blk'[conf].td]_<<tvars, tip0>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
