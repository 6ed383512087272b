-------------------------------- MODULE Net --------------------------------
(***************************************************************************)
(* What a node does with what its peers send it.                           *)
(*                                                                         *)
(* A connection is up once both sides shook hands; only then are messages  *)
(* looked at.  Every request is answered from the chain (or not at all),   *)
(* every announcement is passed to the chain, and the chain's verdict      *)
(* decides what follows: a request for what is still missing, a word to    *)
(* all the others, or a ban.  React gives, for one message, the calls of   *)
(* the chain, the replies to the sender, the messages to all others, and   *)
(* whether the sender is banned.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES uni,     \* [side: id -> [p, h, td, bad], tdu, missing, tx: kinds, horizon, size, max, blocked, state]
          ch,      \* the chain behind: [cand, conf, side, bodies, orph, pool, stem]
          status, up, ban, served

(* ---- the chain ---- *)
Main == 50000                                 \* ids below are the main chain's heights
Parent(i) == IF i < Main THEN i - 1 ELSE uni.side[i].p
Hgt(i) == IF i < Main THEN i ELSE uni.side[i].h
Td(i) == IF i < Main THEN i * uni.tdu ELSE uni.side[i].td
Bad(i) == i >= Main /\ uni.side[i].bad
HasHdr(k, i) == (i >= 0 /\ i <= k.cand) \/ i \in k.side
HasBody(k, i) == (i >= 0 /\ i <= k.conf) \/ i \in k.bodies
HeaderOne(k, i) ==
    IF i < 0 THEN [r |-> "ORPHANED", k |-> k]
    ELSE IF Bad(i) THEN [r |-> "INVALID", k |-> k]
    ELSE IF HasHdr(k, i) THEN [r |-> "ALREADY_EXISTS", k |-> k]
    ELSE IF ~HasHdr(k, Parent(i)) THEN [r |-> "ORPHANED", k |-> k]
    ELSE [r |-> "SUCCESS", k |-> IF i = k.cand + 1 THEN [k EXCEPT !.cand = i] ELSE [k EXCEPT !.side = @ \cup {i}]]
BodyOne(k, i) ==
    IF i < 0 THEN [r |-> "UNKNOWN_ERROR", k |-> k]
    ELSE IF Bad(i) THEN [r |-> "INVALID", k |-> k]
    ELSE IF HasBody(k, i) THEN [r |-> "ALREADY_EXISTS", k |-> k]
    ELSE LET h == HeaderOne(k, i) IN
         IF h.r = "ORPHANED" \/ (i # k.conf + 1 /\ i < Main) THEN [r |-> "ORPHANED", k |-> [h.k EXCEPT !.orph = @ \cup {i}]]
         ELSE [r |-> "SUCCESS", k |-> IF i = k.conf + 1 THEN [h.k EXCEPT !.conf = i, !.orph = @ \ {i}] ELSE [h.k EXCEPT !.bodies = @ \cup {i}]]
CompactOne(k, i) ==
    IF i \in uni.missing /\ ~HasBody(k, i) THEN [r |-> "TRANSACTIONS_MISSING", k |-> k]
    ELSE LET b == BodyOne(k, i) IN IF b.r = "INVALID" THEN [b EXCEPT !.r = "TRANSACTIONS_MISSING"] ELSE b
TxOne(k, i, st) ==
    IF i < 0 \/ uni.tx[i + 1] = 1 THEN [r |-> "INVALID", k |-> k]
    ELSE IF uni.tx[i + 1] = 2 \/ i \in k.pool \/ (st /\ i \in k.stem) THEN [r |-> "UNKNOWN_ERROR", k |-> k]
    ELSE [r |-> "SUCCESS", k |-> IF st THEN [k EXCEPT !.stem = @ \cup {i}] ELSE [k EXCEPT !.pool = @ \cup {i}]]
RECURSIVE HeadersIn(_, _, _), Settled(_)
\* headers i .. j one after the other, up to the first that does not go in
HeadersIn(k, i, j) == IF i > j THEN [r |-> "SUCCESS", k |-> k]
    ELSE LET h == HeaderOne(k, i) IN IF h.r = "INVALID" THEN h ELSE IF h.r = "ORPHANED" THEN [h EXCEPT !.r = "UNKNOWN_ERROR"] ELSE HeadersIn(h.k, i + 1, j)
\* orphans whose turn has come are taken up
Settled(k) == IF k.conf < k.cand /\ k.conf + 1 \in k.orph THEN Settled([k EXCEPT !.conf = @ + 1, !.orph = @ \ {k.conf + 1}]) ELSE k

(* ---- the locator: heights falling by powers of two, the genesis block last ---- *)
MaxHeaders == 512
RECURSIVE Steps(_, _), Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Steps(h, n) == IF h <= 0 THEN <<>> ELSE IF n + 1 >= 19 \/ h <= Pow2(n + 1) THEN <<h>> ELSE <<h>> \o Steps(h - Pow2(n + 1), n + 1)
Locator(h) == Steps(h, 0) \o <<0>>
\* the headers after the first one of the locator that is part of the chain
Min(a, b) == IF a < b THEN a ELSE b
After(k, x) == LET on == {j \in DOMAIN x : x[j] >= 0 /\ x[j] <= k.cand} IN
    IF on = {} THEN <<-1, 0, 1>>
    ELSE LET f == x[CHOOSE j \in on : \A i \in on : j <= i]  n == Min(k.cand - f, MaxHeaders) IN IF n = 0 THEN <<-1, 0, 1>> ELSE <<f + 1, n, 1>>
Snapshot(k, i) == i <= k.conf /\ Hgt(i) + uni.horizon >= k.conf

(* ---- one message of connection c ---- *)
None == [call |-> <<>>, out |-> <<>>, cast |-> {}, ban |-> FALSE, tot |-> <<>>, k |-> ch, served |-> FALSE]
Tot(k) == <<Td(k.conf), k.conf>>
Listening == status = "NOT_SYNCING"
AskedAgain(c, now) == up[c].ip \in DOMAIN served /\ now < served[up[c].ip] + 7200000
React(c, m, x, now) ==
    CASE m = "Ping" -> [None EXCEPT !.out = <<<<"Pong", Tot(ch)>>>>, !.tot = x]
      [] m = "Pong" -> [None EXCEPT !.tot = x]
      [] m = "GetPeerAddrs" -> [None EXCEPT !.out = <<<<"PeerAddrs", <<>>>>>>]
      [] m = "GetHeaders" -> [None EXCEPT !.out = <<<<"Headers", After(ch, x)>>>>]
      [] m = "Header" -> LET i == x[1]  h == HeaderOne(ch, i)  t == IF Td(i) > up[c].td THEN <<Td(i), Hgt(i)>> ELSE <<>> IN
            IF ~Listening THEN [None EXCEPT !.tot = t]
            ELSE [None EXCEPT !.tot = t, !.call = <<<<"AddHeader", <<i>>, h.r>>>>, !.k = h.k, !.ban = h.r = "INVALID",
                              !.out = IF h.r # "INVALID" /\ ~HasBody(h.k, i) THEN <<<<"GetCompact", <<i>>>>>> ELSE <<>>]
      [] m = "Headers" -> LET h == IF x[3] = 0 THEN [r |-> "SUCCESS", k |-> ch] ELSE HeadersIn(ch, x[1], x[2]) IN
            [None EXCEPT !.call = <<<<"AddHeaders", x, h.r>>>>, !.k = h.k, !.ban = h.r = "INVALID"]
      [] m = "GetBlock" -> [None EXCEPT !.out = IF HasBody(ch, x[1]) THEN <<<<"Block", <<x[1], 1>>>>>> ELSE <<>>]
      [] m = "GetCompact" -> [None EXCEPT !.out = IF HasBody(ch, x[1]) THEN <<<<"Compact", <<x[1], 1>>>>>> ELSE <<>>]
      [] m = "Block" -> LET i == x[1]  b == BodyOne(ch, i)  n == [None EXCEPT !.call = <<<<"AddBlock", <<i>>, b.r>>>>, !.k = b.k, !.ban = b.r = "INVALID"] IN
            IF status = "SYNCING_BLOCKS" THEN n
            ELSE IF b.r = "SUCCESS" THEN [n EXCEPT !.cast = {<<"Header", <<i>>>>}]
            ELSE IF b.r = "ORPHANED" /\ Td(i) > Td(b.k.conf) THEN [n EXCEPT !.out = <<<<"GetCompact", <<Parent(i)>>>>>>]
            ELSE n
      [] m = "Compact" -> LET i == x[1]  b == CompactOne(ch, i)  n == [None EXCEPT !.call = <<<<"AddCompact", <<i>>, b.r>>>>, !.k = b.k] IN
            IF b.r = "SUCCESS" THEN [n EXCEPT !.cast = {<<"Header", <<i>>>>}]
            ELSE IF b.r = "TRANSACTIONS_MISSING" THEN [n EXCEPT !.out = <<<<"GetBlock", <<i>>>>>>]
            ELSE IF b.r = "ORPHANED" /\ Hgt(i) < b.k.conf + 100 /\ Td(i) > Td(b.k.conf) THEN [n EXCEPT !.out = <<<<"GetCompact", <<Parent(i)>>>>>>]
            ELSE n
      [] m \in {"Tx", "Stem"} -> IF ~Listening THEN None ELSE LET t == TxOne(ch, x[1], m = "Stem") IN
            [None EXCEPT !.call = <<<<IF m = "Stem" THEN "AddStem" ELSE "AddTx", x, t.r>>>>, !.k = t.k, !.ban = t.r = "INVALID",
                         !.cast = IF t.r = "SUCCESS" /\ m = "Tx" THEN {<<"Kernel", x>>} ELSE {}]
      [] m = "GetTx" -> [None EXCEPT !.out = IF x[1] \in ch.pool THEN <<<<"Tx", <<x[1], 1>>>>>> ELSE <<>>]
      [] m = "Kernel" -> [None EXCEPT !.out = IF Listening /\ x[1] \notin ch.pool THEN <<<<"GetTx", x>>>> ELSE <<>>]
      [] m = "GetState" -> IF AskedAgain(c, now) THEN [None EXCEPT !.ban = TRUE]
            ELSE IF ~HasHdr(ch, x[1]) THEN [None EXCEPT !.served = TRUE]
            ELSE LET s == Snapshot(ch, x[1]) IN [None EXCEPT !.served = TRUE, !.call = <<<<"Snapshot", <<x[1]>>, IF s THEN "SUCCESS" ELSE "EXCEPTION">>>>,
                       !.out = IF s THEN <<<<"Archive", <<x[1], Hgt(x[1]), uni.size>>>>, <<"State", <<x[1], 1>>>>>> ELSE <<>>]
      [] m = "Archive" -> [None EXCEPT !.ban = status # "SYNCING_TXHASHSET"]
      [] OTHER -> None

(* ---- who may connect ---- *)
UpIps == {up[c].ip : c \in DOMAIN up}
MayConnect(ip) == ip \notin ban /\ ip \notin uni.blocked /\ Cardinality(DOMAIN up) < uni.max
Greeting == {"good", "caps", "longua"}       \* a Hand that is in order
MayShake(ip, kind) == kind \in Greeting /\ MayConnect(ip) /\ ip \notin UpIps

(* ---- the peers with the most work, which is where the node turns to ---- *)
MostWork == {c \in DOMAIN up : up[c].h > 0 /\ \A d \in DOMAIN up : up[d].h > 0 => up[d].td <= up[c].td}
Needed == {i \in ch.conf + 1 .. ch.cand : i \notin ch.orph}
=============================================================================
