------------------------------ MODULE MCWallet ------------------------------
(* Two wallets, and a restoration of the first, on a chain that grows and reorganizes: every order of sending,
   receiving, finalizing, posting, mining, refreshing and cancelling. *)
EXTENDS Wallet
CONSTANTS MaxPays, MaxTop, MaxReorgs, Restore
VARIABLES coin, ch, w, pays, pool, reorgs, last
vars == <<coin, ch, w, pays, pool, reorgs, last>>
Users == IF Restore THEN {1, 2, 3} ELSE {1, 2}
SeedOf(u) == IF u = 2 THEN 2 ELSE 1
Coin(amt, seed) == [amt |-> WInt(amt), cb |-> FALSE, seed |-> seed, path |-> 0]
\* the first leaf is an outsider's; wallet 1 holds three coins; a sender's fee is 1 for each coin, 21 for each output and 3
Coins0 == (1 :> Coin(100, 1)) @@ (2 :> Coin(60, 1)) @@ (3 :> Coin(70, 2)) @@ (4 :> Coin(0, 9))
Next0 == Cardinality(DOMAIN coin) + 1
Id(wl) == Cardinality(DOMAIN wl.tx)
Ch0 == Mined(Mined(Genesis, <<4, 1, 2, 3>>, {}), <<>>, {})
Seen0(u) == LET mine == {o \in 1 .. 3 : Coins0[o].seed = SeedOf(u)} IN Refresh(NoWallet(SeedOf(u)), Coins0, Ch0, TRUE, [o \in mine |-> o])
Init == coin = Coins0 /\ ch = Ch0 /\ w = [u \in Users |-> IF u = 3 THEN NoWallet(1) ELSE Seen0(u)] /\ pays = <<>> /\ pool = {} /\ reorgs = 0 /\ last = <<"init">>
Say(x) == last' = x
Numbered(wl, s) == LET RECURSIVE G(_, _)
                       G(q, n) == IF q = {} THEN <<>> ELSE LET x == CHOOSE x \in q : \A y \in q : x <= y IN (x :> n) @@ G(q \ {x}, n + 1)
                   IN G(s, 1000 + Cardinality(DOMAIN wl.tx))
Fresh(wl, full) == IF ch.top < wl.rh THEN wl ELSE Refresh(wl, coin, ch, full, Numbered(wl, MustFind(wl, coin, ch, full)))
Look == \E u \in Users, full \in BOOLEAN : Fresh(w[u], full) # w[u] /\ w' = [w EXCEPT ![u] = Fresh(w[u], full)] /\ Say(<<"look", u, full>>) /\ UNCHANGED <<coin, ch, pays, pool, reorgs>>
DoSend == \E u \in {1, 2}, strat \in {"SMALLEST", "ALL"}, amt \in {20, 80} :
    LET v == Fresh(w[u], FALSE) ripe == Ripe(v, coin, 1, ch.top) IN
    Len(pays) < MaxPays /\ ch.top >= w[u].rh /\ \E ins \in SUBSET ripe : ins # {} /\ Chosen(coin, ripe, strat, {}, WInt(amt), <<1>>, 2, ins)
    /\ LET fee == Fee(<<1>>, Cardinality(ins), 2) left == WSub(Worth(coin, ins), WAdd(WInt(amt), fee)) c == Next0 id == 2000 + Cardinality(DOMAIN v.tx) IN
       /\ coin' = coin @@ (c :> [amt |-> left, cb |-> FALSE, seed |-> SeedOf(u), path |-> 0])
       /\ w' = [w EXCEPT ![u] = Send(v, coin', id, Len(pays) + 1, ins, {c})]
       /\ pays' = Append(pays, [u |-> u, id |-> id, amt |-> WInt(amt), fee |-> fee, ins |-> ins, chg |-> c, out |-> 0])
    /\ Say(<<"send", u>>) /\ UNCHANGED <<ch, pool, reorgs>>
DoReceive == \E p \in DOMAIN pays, u \in Users : pays[p].u # u /\ pays[p].out = 0 /\ MayReceive(w[u], p)
    /\ coin' = coin @@ (Next0 :> [amt |-> pays[p].amt, cb |-> FALSE, seed |-> SeedOf(u), path |-> 0])
    /\ w' = [w EXCEPT ![u] = Receive(@, coin', 3000 + Id(@), p, Next0)] /\ pays' = [pays EXCEPT ![p].out = Next0]
    /\ Say(<<"receive", u>>) /\ UNCHANGED <<ch, pool, reorgs>>
DoFinalize == \E p \in DOMAIN pays : pays[p].out # 0 /\ pays[p].id \in Started(w[pays[p].u], p)
    /\ w' = [w EXCEPT ![pays[p].u] = Finalize(@, pays[p].id, pays[p].out)] /\ pool' = pool \cup {p} /\ Say(<<"finalize", p>>) /\ UNCHANGED <<coin, ch, pays, reorgs>>
DoCancel == \E u \in {1, 2} : \E id \in DOMAIN w[u].tx : MayCancel(w[u], id) /\ w' = [w EXCEPT ![u] = Cancel(@, id)] /\ Say(<<"cancel", u, id>>) /\ UNCHANGED <<coin, ch, pays, pool, reorgs>>
Valid(p) == pays[p].ins \subseteq DOMAIN ch.live /\ {pays[p].chg, pays[p].out} \cap DOMAIN ch.live = {}
Mine == /\ ch.top < MaxTop
        /\ \E q \in pool \cup {0} : IF q = 0 THEN ch' = Mined(ch, <<>>, {}) ELSE Valid(q) /\ ch' = Mined(ch, <<pays[q].chg, pays[q].out>>, pays[q].ins)
        /\ Say(<<"mine">>) /\ UNCHANGED <<coin, w, pays, pool, reorgs>>
Reorg == reorgs < MaxReorgs /\ ch.top > 1 /\ ch' = Back(ch, ch.top - 1) /\ reorgs' = reorgs + 1 /\ Say(<<"reorg">>) /\ UNCHANGED <<coin, w, pays, pool>>
Next == Look \/ DoSend \/ DoReceive \/ DoFinalize \/ DoCancel \/ Mine \/ Reorg
Spec == Init /\ [][Next]_vars
View == <<coin, ch, w, pays, pool, reorgs>>
Live(seed) == {o \in DOMAIN ch.live : coin[o].seed = seed}
AllSound == \A u \in Users : Sound(w[u], coin)
\* every payment balances
Balanced == \A p \in DOMAIN pays : WAdd(WAdd(pays[p].amt, pays[p].fee), coin[pays[p].chg].amt) = Worth(coin, pays[p].ins)
\* a full look leaves exactly what is on the chain counted, a plain one nothing that is not
Counted(wl) == Held(wl, "Spendable") \cup Held(wl, "Locked")
Truthful == [][last'[1] = "look" /\ ch.top >= w[last'[2]].rh => LET u == last'[2] IN
    /\ Counted(w'[u]) \subseteq Live(SeedOf(u))
    /\ last'[3] => Counted(w'[u]) = Live(SeedOf(u))
    /\ \A o \in Counted(w'[u]) : w'[u].out[o].h = ch.live[o].h]_vars
\* without a reorganization a plain look suffices
Enough == [][last'[1] = "look" /\ reorgs = 0 => Counted(w'[last'[2]]) = Live(SeedOf(last'[2]))]_vars
\* what is cancelled is free again, and nothing else changes
Released == [][last'[1] = "cancel" => LET u == last'[2] id == last'[3] IN
    /\ \A o \in w[u].tx[id].ins \cap Held(w[u], "Locked") : w'[u].out[o].st = "Spendable"
    /\ \A o \in DOMAIN w[u].out \ (w[u].tx[id].ins \cup Own(w[u], id)) : w'[u].out[o] = w[u].out[o]]_vars
\* a payment never spends a coin twice, nor one of another's
Mines == \A p \in DOMAIN pays : \A o \in pays[p].ins : coin[o].seed = SeedOf(pays[p].u)
=============================================================================
