---------------------------- MODULE WalletTrace ----------------------------
EXTENDS Wallet, Json, IOUtils, SequencesExt
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, coin, ch, wal, pay, resp, minconf
vars == <<l, coin, ch, wal, pay, resp, minconf>>
E == Log[l]
CONSTANT MODE   \* the property looked at; what concerns only the others is taken from the trace as it is
In(modes, what, c) == IF MODE \notin modes \cup {"all"} THEN TRUE ELSE IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ok(what, c) == In({MODE}, what, c)
Ran(s) == {s[k] : k \in DOMAIN s}
\* ---- the view a wallet gives of itself after a step ----
VOut == [o \in {r[1] : r \in Ran(E.o)} |-> LET r == CHOOSE r \in Ran(E.o) : r[1] = o IN [st |-> r[2], h |-> r[3], tx |-> r[4]]]
VTx == [t \in {r[1] : r \in Ran(E.t)} |-> LET r == CHOOSE r \in Ran(E.t) : r[1] = t IN <<r[2], r[3], r[4], r[5]>>]
Coins == Over(coin, [o \in {r[1] : r \in Ran(E.new)} |-> LET r == CHOOSE r \in Ran(E.new) : r[1] = o IN [amt |-> r[2], cb |-> r[3], seed |-> r[4], path |-> r[5]]])
Made == {r[1] : r \in {r \in Ran(E.new) : r[4] # 0}}
Shows(w) == w.out = VOut /\ [t \in DOMAIN w.tx |-> <<w.tx[t].ty, w.tx[t].sl, w.tx[t].cred, w.tx[t].deb>>] = VTx /\ w.rh = E.rh
\* coins first seen in this step, and the transactions they came under
NewTo(w, except) == [o \in ((DOMAIN VOut \ DOMAIN w.out) \ except) \cap DOMAIN ch.live |-> VOut[o].tx]
\* whose business what a wallet shows after a step is
Shown == {"C17"} \cup (IF E.e \in {"Recv", "Fin"} THEN {"C18"} ELSE IF E.e \in {"Send", "Estimate"} THEN {"C19"} ELSE IF E.e \in {"Join", "Refresh"} THEN {"C20"} ELSE {})
View(w) == /\ In(Shown, "outputs", w.out = VOut)
           /\ In(Shown, "transactions", [t \in DOMAIN w.tx |-> <<w.tx[t].ty, w.tx[t].sl, w.tx[t].cred, w.tx[t].deb>>] = VTx)
           /\ In({"C17"}, "height", w.rh = E.rh)
           /\ In({"C17", "C20"}, "each once", Len(E.o) = Cardinality(DOMAIN VOut) /\ Len(E.t) = Cardinality(DOMAIN VTx))
           /\ In({"C20"}, "keys", \A r \in Ran(E.o) : r[5])
           /\ In({"C17"}, "balance", E.bal = Balance(w, coin', minconf))
           /\ In({"C17"}, "sound", Sound(w, coin'))
\* the wallet as the trace shows it, with what only the specification knows of its transactions
Taken(w) == IF w.out = VOut /\ DOMAIN w.tx = DOMAIN VTx /\ \A t \in DOMAIN VTx : w.tx[t].ty = VTx[t][1] THEN w
    ELSE [w EXCEPT !.out = VOut, !.rh = E.rh, !.tx = [t \in DOMAIN VTx |-> IF t \in DOMAIN w.tx THEN [w.tx[t] EXCEPT !.ty = VTx[t][1]]
            ELSE [ty |-> VTx[t][1], sl |-> VTx[t][2], ins |-> {}, outs |-> {}, cred |-> VTx[t][3], deb |-> VTx[t][4]]]]
\* every coin made has a key of its own
Makes(s) == /\ In({"C20"}, "made", Made = s) /\ coin' = Coins
            /\ In({"C20"}, "fresh keys", \A o \in s : \A p \in DOMAIN coin' : coin'[p].seed = coin'[o].seed /\ coin'[p].path = coin'[o].path => p = o)
W == wal[E.u]
Becomes(w) == View(w) /\ wal' = [wal EXCEPT ![E.u] = Taken(w)]
Missed(w, full, found) == (MODE \in {"C17", "all"} /\ ch.top >= w.rh) => \A o \in Unknown(w, coin, ch) \ DOMAIN found : PrintT(<<"KNOWN", "C17-reorg-rescan">>)
Look(w, full, found) == In({"C17", "C20"}, "found", Found(w, coin, ch, full, found)) /\ Missed(w, full, found)
Looked(full, except) == LET f == NewTo(W, except) IN Refresh(W, coin, ch, full, f)

Keep == UNCHANGED <<ch, pay, resp, minconf>>
TInit1 == E.e = "Init" /\ minconf' = E.minconf /\ Ok("maturity", E.maturity = Maturity) /\ UNCHANGED <<coin, ch, wal, pay, resp>>
TJoin == /\ E.e = "Join" /\ Makes({}) /\ Keep
         /\ LET w == NoWallet(E.seed) f == NewTo(w, {}) v == Refresh(w, coin, ch, FALSE, f)
            IN In({"C17", "C20"}, "found", Found(w, coin, ch, FALSE, f)) /\ wal' = Append(wal, Taken(v)) /\ Ok("index", Len(wal) + 1 = E.u) /\ View(v)
TRefresh == E.e = "Refresh" /\ Makes({}) /\ (IF E.r THEN LET f == NewTo(W, {}) IN Look(W, E.full, f) /\ Becomes(Refresh(W, coin, ch, E.full, f)) ELSE Becomes(W)) /\ Keep
TBlock == /\ E.e = "Block" /\ Makes({}) /\ Ok("height", E.h = ch.top + 1)
          /\ ch' = Mined(ch, E.adds, Ran(E.spends))
          /\ UNCHANGED <<wal, pay, resp, minconf>>
TReorg == E.e = "Reorg" /\ ch' = Back(ch, E.h) /\ UNCHANGED <<coin, wal, pay, resp, minconf>>
TCancel == E.e = "Cancel" /\ Makes({}) /\ In({"C17"}, "cancelled", E.r <=> MayCancel(W, E.tx) \/ E.tx \notin DOMAIN W.tx)
           /\ Becomes(IF MayCancel(W, E.tx) THEN Cancel(W, E.tx) ELSE W) /\ Keep
TCoinbase == E.e = "Coinbase" /\ Makes({E.oid}) /\ In({"C20"}, "coinbase", E.ok /\ coin'[E.oid].cb /\ coin'[E.oid].seed = W.seed) /\ Becomes(W) /\ Keep

\* ---- choosing ----
Outs == IF E.all THEN 1 ELSE 1 + E.nchg
Picks(ripe, ins) == IF E.all THEN Everything(coin, ripe, E.base, ins) ELSE Chosen(coin, ripe, E.strat, Ran(E.want), E.amt, E.base, Outs, ins)
FeeLimit == <<7776, 1162, 995, 1>>   \* a fee has 40 bits
Sums(ins) == /\ In({"C19"}, "amount", Ran(E.ins) = ins /\ E.samt = IF E.all THEN WSub(Worth(coin, ins), Fee(E.base, Cardinality(ins), 1)) ELSE E.amt)
             /\ In({"C19"}, "fee fits", WLt(E.fee, FeeLimit)) /\ In({"C19"}, "fee", IF E.e = "Send" /\ E.nchg = 0 /\ ~E.all THEN WAdd(E.samt, E.fee) = Worth(coin, ins) ELSE E.fee = Fee(E.base, Cardinality(ins), Outs))
TooDear(ins) == ~WLt(WSub(Worth(coin, ins), E.amt), FeeLimit)
TEstimate == E.e = "Estimate" /\ Makes({}) /\ Becomes(W) /\ Keep
             /\ LET ripe == Ripe(W, coin, minconf, W.rh) IN IF E.r THEN In({"C19"}, "estimated", Ran(E.ins) # {} /\ Picks(ripe, Ran(E.ins))) /\ Sums(Ran(E.ins)) ELSE In({"C19"}, "refused to estimate", Picks(ripe, {}))
\* ---- payments ----
TSend == /\ E.e = "Send"
         /\ IF E.r
            THEN LET chg == Ran(E.chg) \ {-1} f == NewTo(W, chg) w == Refresh(W, coin, ch, FALSE, f) ins == Ran(E.ins) \cap DOMAIN w.out
                     ripe == IF ch.top < W.rh THEN {} ELSE Ripe(w, coin, minconf, ch.top)
                 IN /\ Look(W, FALSE, f) /\ Makes(chg)
                    /\ In({"C19"}, "selected", ins # {} /\ Ran(E.ins) = ins /\ Len(E.ins) = Cardinality(ins) /\ Picks(ripe, ins)) /\ Sums(ins)
                    /\ In({"C18", "C19"}, "change", (IF E.all THEN chg = {} ELSE Cardinality(chg) = E.nchg) /\ Len(E.chg) = Cardinality(chg) /\ WAdd(WAdd(E.samt, E.fee), Worth(coin', chg)) = Worth(coin, ins))
                    /\ In({"C20"}, "fresh id", E.tx \notin DOMAIN w.tx)
                    /\ Becomes(Send(w, coin', E.tx, E.slate, ins, chg))
                    /\ pay' = Append(pay, [u |-> E.u, amt |-> E.samt, fee |-> E.fee, ins |-> ins, chg |-> chg]) /\ Ok("slate", E.slate = Len(pay) + 1)
                    /\ UNCHANGED <<ch, resp, minconf>>
            ELSE LET f == NewTo(W, {}) w == Refresh(W, coin, ch, FALSE, f) IN
                 /\ Makes({}) /\ Keep
                 /\ IF E.fail /\ Shows(W) THEN Becomes(W) ELSE Look(W, FALSE, f) /\ Becomes(w)
                 /\ In({"C19"}, "refused to send", LET ripe == IF ch.top < W.rh THEN {} ELSE Ripe(w, coin, minconf, ch.top) IN
                        E.fail \/ Picks(ripe, {}) \/ (E.nchg = 0 /\ ~E.all /\ \E s \in (IF E.strat = "CUSTOM" THEN {Ran(E.want)} ELSE {ripe}) : TooDear(s)))
OutsidePay(s) == [k \in 1 .. s - Len(pay) |-> [u |-> -1, amt |-> <<>>, fee |-> <<>>, ins |-> {}, chg |-> {}]]
TRecv == /\ E.e = "Recv" /\ pay' = pay \o OutsidePay(E.slate)
         /\ IF E.r THEN /\ Makes({E.oid} \ {-1}) /\ In({"C18"}, "received", MayReceive(W, E.slate) /\ E.addressed)
                        /\ In({"C18"}, "response", E.ok /\ coin'[E.oid].amt = E.amt /\ coin'[E.oid].seed = W.seed)
                        /\ \E id \in DOMAIN VTx \ DOMAIN W.tx : Becomes(IF E.oid = -1 THEN W ELSE Receive(W, coin', id, E.slate, E.oid))
                        /\ resp' = Append(resp, E.oid) /\ Ok("response id", E.resp = Len(resp) + 1)
            ELSE Makes({}) /\ In({"C18"}, "refused to receive", ~MayReceive(W, E.slate) \/ ~E.addressed \/ E.kind # "good") /\ Becomes(W) /\ UNCHANGED resp
         /\ UNCHANGED <<ch, minconf>>
TFin == /\ E.e = "Fin" /\ Makes({}) /\ Keep
        /\ LET may == E.kind # "bad" /\ E.slate # -1 /\ pay[E.slate].u = E.u /\ Started(W, E.slate) # {}
               id == CHOOSE t \in Started(W, E.slate) : TRUE
               p == pay[E.slate]
           IN IF E.r THEN
                  /\ In({"C18"}, "finalized", may /\ E.tx = id) /\ Becomes(IF may THEN Finalize(W, id, resp[E.resp]) ELSE W)
                  /\ In({"C18"}, "transaction", E.valid /\ Ran(E.tins) = p.ins /\ Ran(E.touts) = p.chg \cup {resp[E.resp]} /\ Len(E.tins) = Cardinality(p.ins) /\ Len(E.touts) = Cardinality(p.chg) + 1 /\ E.tfee = p.fee /\ coin[resp[E.resp]].amt = p.amt)
                  /\ In({"C18"}, "posted", E.posted = (IF E.post THEN 1 ELSE 0) /\ E.same)
              ELSE /\ In({"C18"}, "refused to finalize", ~may \/ E.kind # "good" \/ E.fail)
                   /\ In({"C18"}, "posted though refused", "posted" \notin DOMAIN E)
                   /\ IF may /\ E.fail /\ E.post /\ ~Shows(W) THEN Becomes(Finalize(W, id, resp[E.resp])) ELSE Becomes(W)
TStep == TInit1 \/ TJoin \/ TRefresh \/ TBlock \/ TReorg \/ TCancel \/ TCoinbase \/ TEstimate \/ TSend \/ TRecv \/ TFin
TInit == l = 1 /\ coin = <<>> /\ ch = Genesis /\ wal = <<>> /\ pay = <<>> /\ resp = <<>> /\ minconf = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
