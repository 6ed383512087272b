------------------------------- MODULE Wallet -------------------------------
(* A wallet: its outputs and transactions, and what sending, receiving, finalizing, cancelling and
   looking at the chain do to them. Operators over one wallet record
     [seed, out: coin -> [st, h, tx], tx: id -> [ty, sl, ins, outs, cred, deb], rh, scan]
   given the coins that exist (coin -> [amt, cb, seed]) and the chain ([live: coin -> [h, leaf], top, leaves]). *)
EXTENDS Wide, FiniteSets, TLC
CONSTANT Maturity
Free == {"Spendable"}
Open == {"SENDING_NOT_FINALIZED", "SENDING_FINALIZED"}
NoWallet(seed) == [seed |-> seed, out |-> <<>>, tx |-> <<>>, rh |-> 0, scan |-> 0]
RECURSIVE Worth(_, _)
Worth(coin, s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN WAdd(coin[x].amt, Worth(coin, s \ {x}))
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

\* ---- the chain ----
Genesis == [live |-> <<>>, top |-> -1, leaves |-> 0, past |-> <<>>]
Mined(c, adds, spends) ==
    LET add == [o \in {adds[k] : k \in DOMAIN adds} |-> [h |-> c.top + 1, leaf |-> c.leaves + (CHOOSE k \in DOMAIN adds : adds[k] = o) - 1]]
        keep == DOMAIN c.live \ spends
    IN [live |-> Over([o \in keep |-> c.live[o]], add), top |-> c.top + 1, leaves |-> c.leaves + Len(adds), past |-> Append(c.past, [o \in spends |-> c.live[o]])]
RECURSIVE Back(_, _)
Back(c, h) == IF c.top = h THEN c ELSE
    LET keep == {o \in DOMAIN c.live : c.live[o].h < c.top}
    IN Back([live |-> Over([o \in keep |-> c.live[o]], c.past[Len(c.past)]), top |-> c.top - 1, past |-> SubSeq(c.past, 1, Len(c.past) - 1),
             leaves |-> c.leaves - Cardinality(DOMAIN c.live \ keep)], h)

\* ---- maturity ----
Mature(coin, minconf, o, h, top) == IF coin[o].cb THEN (IF top > Maturity THEN top - Maturity ELSE 0) > h ELSE h + minconf <= top

\* ---- looking at the chain ----
Reserved(w, o) == \E t \in DOMAIN w.tx : w.tx[t].ty \in Open /\ o \in w.tx[t].ins
Unknown(w, coin, ch) == {o \in DOMAIN ch.live : coin[o].seed = w.seed /\ o \notin DOMAIN w.out}
MustFind(w, coin, ch, full) == {o \in Unknown(w, coin, ch) : full \/ ch.live[o].leaf > w.scan}
Scanned(w, ch, full) == IF \E o \in DOMAIN ch.live : full \/ ch.live[o].leaf > w.scan THEN ch.leaves - 1 ELSE w.scan
OnChain(w, ch, o, r) == IF o \in DOMAIN ch.live
    THEN [r EXCEPT !.st = IF @ \in {"Locked", "Spendable"} THEN @ ELSE IF Reserved(w, o) THEN "Locked" ELSE "Spendable", !.h = ch.live[o].h]
    ELSE [r EXCEPT !.st = IF @ \in {"Locked", "Spendable"} THEN "Spent" ELSE @]
Seen(t, id, out) == \/ \E o \in DOMAIN out : out[o].tx = id /\ out[o].h # -1
                    \/ t.ty = "SENDING_FINALIZED" /\ \E o \in t.outs \cap DOMAIN out : out[o].st = "Spent"
Settle(t, id, out) == IF Seen(t, id, out) /\ t.ty \in {"RECEIVING_IN_PROGRESS", "SENDING_FINALIZED"}
    THEN [t EXCEPT !.ty = IF @ = "RECEIVING_IN_PROGRESS" THEN "RECEIVED" ELSE "SENT"] ELSE t
\* found: the coins not known before, each with the id of the transaction it is entered under
Refresh(w, coin, ch, full, found) ==
    IF ch.top < w.rh THEN w ELSE
    LET o1 == Over(w.out, [o \in DOMAIN found |-> [st |-> "Spendable", h |-> ch.live[o].h, tx |-> found[o]]])
        o2 == [o \in DOMAIN o1 |-> OnChain(w, ch, o, o1[o])]
        t1 == [t \in DOMAIN w.tx |-> Settle(w.tx[t], t, o2)]
        t2 == Over(t1, [t \in {found[o] : o \in DOMAIN found} |-> LET o == CHOOSE o \in DOMAIN found : found[o] = t IN
                  [ty |-> "RECEIVED", sl |-> -1, ins |-> {}, outs |-> {o}, cred |-> coin[o].amt, deb |-> <<>>]])
    IN [w EXCEPT !.out = o2, !.tx = t2, !.rh = ch.top, !.scan = Scanned(w, ch, full)]
Found(w, coin, ch, full, found) == IF ch.top < w.rh THEN found = <<>> ELSE
    /\ DOMAIN found \subseteq Unknown(w, coin, ch)
    /\ MustFind(w, coin, ch, full) \subseteq DOMAIN found
    /\ \A o \in DOMAIN found : found[o] \notin DOMAIN w.tx /\ \A p \in DOMAIN found : found[p] = found[o] => p = o

\* ---- what is in it ----
Held(w, st) == {o \in DOMAIN w.out : w.out[o].st = st}
Ripe(w, coin, minconf, top) == {o \in Held(w, "Spendable") : Mature(coin, minconf, o, w.out[o].h, top)}
Balance(w, coin, minconf) ==
    LET un == Worth(coin, Held(w, "No Confirmations"))
        im == Worth(coin, Held(w, "Spendable") \ Ripe(w, coin, minconf, w.rh))
        sp == Worth(coin, Ripe(w, coin, minconf, w.rh))
    IN <<un, im, Worth(coin, Held(w, "Locked")), sp, WAdd(WAdd(un, im), sp)>>

\* ---- choosing coins ----
Fee(base, ins, outs) == WMulS(base, ins + 21 * outs + 3)
Covers(coin, s, amt, base, outs) == WLe(WAdd(amt, Fee(base, Cardinality(s), outs)), Worth(coin, s))
RECURSIVE Prefix(_, _, _, _, _, _)
\* the amounts of the shortest run of coins, from the small or the large end, that covers the amount and the fee for it
Prefix(q, k, sum, amt, base, outs) == IF k > Len(q) THEN <<>> ELSE
    LET s == WAdd(sum, q[k]) IN IF WLe(WAdd(amt, Fee(base, k, outs)), s) THEN SubSeq(q, 1, k) ELSE Prefix(q, k + 1, s, amt, base, outs)
Sorted(coin, s, up) == LET RECURSIVE Ins(_, _), All(_)
        Ins(q, a) == IF q = <<>> THEN <<a>> ELSE IF (IF up THEN WLe(a, Head(q)) ELSE WLe(Head(q), a)) THEN <<a>> \o q ELSE <<Head(q)>> \o Ins(Tail(q), a)
        All(r) == IF r = {} THEN <<>> ELSE LET x == CHOOSE x \in r : TRUE IN Ins(All(r \ {x}), coin[x].amt)
    IN All(s)
\* May `ins` be what is spent from the ripe coins, where outs is the number of outputs the fee is for?  {} stands for a refusal.
Chosen(coin, ripe, strat, want, amt, base, outs, ins) ==
    CASE strat = "ALL" -> IF ripe # {} /\ Covers(coin, ripe, amt, base, outs) THEN ins = ripe ELSE ins = {}
      [] strat = "CUSTOM" -> IF want # {} /\ want \subseteq ripe /\ Covers(coin, want, amt, base, outs) THEN ins = want ELSE ins = {}
      [] OTHER -> LET up == strat = "SMALLEST" p == Prefix(Sorted(coin, ripe, up), 1, <<>>, amt, base, outs)
                  IN ins \subseteq ripe /\ Sorted(coin, ins, up) = p
Everything(coin, ripe, base, ins) == IF ripe # {} /\ Covers(coin, ripe, <<>>, base, 1) THEN ins = ripe ELSE ins = {}

\* ---- payments ----
Send(w, coin, id, sl, ins, chg) == [w EXCEPT
    !.out = Over(Over(@, [o \in ins |-> [w.out[o] EXCEPT !.st = "Locked"]]), [o \in chg |-> [st |-> "No Confirmations", h |-> -1, tx |-> id]]),
    !.tx = Over(@, (id :> [ty |-> "SENDING_NOT_FINALIZED", sl |-> sl, ins |-> ins, outs |-> chg, cred |-> Worth(coin, chg), deb |-> Worth(coin, ins)]))]
MayReceive(w, sl) == \A t \in DOMAIN w.tx : w.tx[t].sl = sl => w.tx[t].ty \in {"RECEIVED_CANCELED", "SENDING_NOT_FINALIZED"}
Receive(w, coin, id, sl, o) == [w EXCEPT
    !.out = Over(@, (o :> [st |-> "No Confirmations", h |-> -1, tx |-> id])),
    !.tx = Over(@, (id :> [ty |-> "RECEIVING_IN_PROGRESS", sl |-> sl, ins |-> {}, outs |-> {o}, cred |-> coin[o].amt, deb |-> <<>>]))]
Started(w, sl) == {t \in DOMAIN w.tx : w.tx[t].sl = sl /\ w.tx[t].ty = "SENDING_NOT_FINALIZED"}
Finalize(w, id, o) == [w EXCEPT !.tx[id].ty = "SENDING_FINALIZED", !.tx[id].outs = @ \cup {o}]

\* ---- cancelling ----
Undo(st) == IF st \in {"No Confirmations", "Spent"} THEN "Canceled" ELSE st
Own(w, id) == {o \in DOMAIN w.out : w.out[o].tx = id} \ w.tx[id].ins
MayCancel(w, id) == id \in DOMAIN w.tx /\ w.tx[id].ty \in Open \cup {"RECEIVING_IN_PROGRESS"}
    /\ \A o \in Own(w, id) : w.out[o].st \in {"No Confirmations", "Spent", "Canceled"}
Cancel(w, id) == [w EXCEPT
    !.out = [o \in DOMAIN @ |-> IF o \in w.tx[id].ins THEN [@[o] EXCEPT !.st = IF @ = "Locked" THEN "Spendable" ELSE Undo(@)]
                                ELSE IF o \in Own(w, id) THEN [@[o] EXCEPT !.st = Undo(@)] ELSE @[o]],
    !.tx[id].ty = IF @ = "RECEIVING_IN_PROGRESS" THEN "RECEIVED_CANCELED" ELSE "SENT_CANCELED"]

\* ---- what always holds of a wallet ----
Sound(w, coin) ==
    /\ \A o \in DOMAIN w.out : coin[o].seed = w.seed
    /\ \A t \in DOMAIN w.tx : \A u \in DOMAIN w.tx : t # u /\ w.tx[t].ty \in Open /\ w.tx[u].ty \in Open => w.tx[t].ins \cap w.tx[u].ins = {}
    /\ \A o \in DOMAIN w.out : w.out[o].st = "Locked" => Reserved(w, o) \/ \E t \in DOMAIN w.tx : w.tx[t].ty = "SENT" /\ o \in w.tx[t].ins
    /\ \A o \in DOMAIN w.out : w.out[o].st = "Spendable" => ~Reserved(w, o)
=============================================================================
