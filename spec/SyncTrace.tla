----------------------------- MODULE SyncTrace ------------------------------
(* Checks a recorded attempt of the real node to catch up with the peers of harness/net.cpp (mode sync). *)
EXTENDS NetTrace, Sync
VARIABLES net, hs, bs,   \* the height claimed; whether headers and blocks were caught up with before
          hq, bq, sq,    \* what was asked for: headers (none: <<>>), blocks by height, the state
          lost           \* who left while things were asked for: this may be held against them
svars == <<uni, ch, status, up, ban, served, l, asked, net, hs, bs, hq, bq, sq, lost>>
None0 == [ip |-> 0, lo |-> 0, hi |-> 0, k |-> 0, rt |-> FALSE]
Bad0 == [None0 EXCEPT !.ip = -1]
Ips(u) == {u[c].ip : c \in DOMAIN u}
IpOf(c) == IF c \in DOMAIN up THEN up[c].ip ELSE IF c \in DOMAIN up' THEN up'[c].ip ELSE 0
Both == DOMAIN up \cap DOMAIN up'
MaxOf(a, b) == IF a > b THEN a ELSE b
Told(c, k) == IF E.e = "Msg" /\ E.m = "Ping" /\ E.c = c THEN E.x[k] ELSE 0
TdHi(c) == MaxOf(Told(c, 1), IF c \in Both THEN MaxOf(up[c].td, up'[c].td) ELSE IF c \in DOMAIN up THEN up[c].td ELSE up'[c].td)
HHi(c) == MaxOf(Told(c, 2), IF c \in Both THEN MaxOf(up[c].h, up'[c].h) ELSE IF c \in DOMAIN up THEN up[c].h ELSE up'[c].h)
\* c may be one of the peers with the most work at some moment of this step
Known(c) == c \in DOMAIN up \cup DOMAIN up'
May(c, high) == Known(c) /\ HHi(c) > 0 /\ \A d \in Both : (up[d].h > 0 /\ up'[d].h > 0) => LET t == Min(up[d].td, up'[d].td) IN t < TdHi(c) \/ (t = TdHi(c) /\ (~high \/ Min(up[d].h, up'[d].h) <= HHi(c)))
Of(type) == LET Is(o) == o[2] = type IN SelectSeq(E.out, Is)
Late(q, len) == E.t1 - q.lo > len       \* the deadline may have passed
TooLate(q, len) == E.t1 - q.hi > len + 400

(* ---- headers ---- *)
Ask(ip, k, rt) == [ip |-> ip, lo |-> E.t0, hi |-> E.t1, k |-> k, rt |-> rt]
RECURSIVE HFold(_, _)
HFold(q, s) == IF s = <<>> THEN q ELSE
    LET c == Head(s)[1]  ip == IpOf(c)  k == Head(s)[3][1]  more == q.ip > 0 /\ k >= q.k + FullBatch  gone == q # None0 /\ (q.ip \notin Ips(up') \/ q.ip \in ban') IN
    IF q # None0 /\ q.lo = E.t0 /\ ip \in ban' THEN HFold(q, Tail(s))    \* (before it was given up)
    ELSE IF q.ip <= 0 THEN (IF Ok(<<"headers of", c>>, May(c, TRUE)) THEN HFold(Ask(ip, k, q.rt), Tail(s)) ELSE Bad0)
    ELSE IF more THEN (IF Ok(<<"more headers of", c>>, ip = q.ip \/ (gone /\ May(c, TRUE))) THEN HFold(Ask(ip, k, FALSE), Tail(s)) ELSE Bad0)
    ELSE IF gone /\ q.ip \notin ban' THEN (IF Ok(<<"headers of another", c>>, May(c, TRUE)) THEN HFold(Ask(ip, k, q.rt), Tail(s)) ELSE Bad0)
    ELSE IF gone THEN (IF Ok(<<"headers of another", c>>, May(c, TRUE)) THEN HFold(Ask(ip, k, IF q.ip \in Ips(up) /\ q.rt /\ Late(q, Deadline) THEN FALSE ELSE q.rt), Tail(s)) ELSE Bad0)
    ELSE IF Ok(<<"headers again of", c, q>>, Late(q, Deadline) /\ ~q.rt /\ ip = q.ip) THEN HFold(Ask(ip, k, TRUE), Tail(s)) ELSE Bad0
HBehind == HeadersBehind(net', E.st.cand, hs)
HLate == IF hq # None0 /\ hq.rt /\ Late(hq, Deadline) THEN {hq.ip} ELSE {}
\* (when all leave at once, the last one counts)
Headers == /\ net' \in IF Highest(up') = {} THEN {net} \cup {up[c].h : c \in Claiming(up)} ELSE {NetHeight(up', net)}
           /\ hs' = (hs \/ (DOMAIN up' # {} /\ ~HBehind))
           /\ \E q \in {HFold(hq, Of("GetHeaders"))} : /\ q # Bad0 /\ hq' = IF DOMAIN up' # {} /\ ~HBehind THEN None0 ELSE IF DOMAIN up' # {} /\ q.ip \notin Ips(up') THEN [None0 EXCEPT !.rt = q.rt] ELSE q
           /\ Ok(<<"no headers asked for", hq'>>, (Claiming(up') # {} /\ HBehind) => hq'.ip \in Ips(up') /\ ~TooLate(hq', Deadline) /\ E.st.cand < hq'.k + FullBatch)
           /\ Ok("stale peer kept", (hq # None0 /\ hq.rt /\ TooLate(hq, Deadline) /\ HBehind /\ E.st.cand < hq.k + FullBatch /\ hq.ip \in Ips(up) \cap Ips(up')) => FALSE)

(* ---- the state ---- *)
SBehind == StateBehind(E.st.cand, E.st.conf)
Failed == E.e = "Give" /\ \E j \in DOMAIN E.calls : E.calls[j][1] = "ProcessState" /\ E.calls[j][3] = "INVALID"
RECURSIVE SFold(_, _)
SFold(q, s) == IF s = <<>> THEN q ELSE
    LET c == Head(s)[1] IN
    IF q # None0 /\ q.lo = E.t0 /\ IpOf(c) \in ban' /\ q.ip \notin ban' THEN SFold(q, Tail(s))
    ELSE IF Ok(<<"state of", c, q>>, /\ (StateBehind(ch.cand, ch.conf) \/ SBehind) /\ May(c, TRUE)
                                /\ (q # None0 => q.ip \in ban' /\ (Late(q, Deadline) \/ q.ip \notin Ips(up') \/ q.lo = E.t0)))
    THEN SFold(Ask(IpOf(c), 0, FALSE), Tail(s)) ELSE Bad0
SLate == IF sq # None0 /\ (Late(sq, Deadline) \/ sq.ip \notin Ips(up')) THEN {sq.ip} ELSE {}
SNow == LET s == Of("GetState") IN {IpOf(s[j][1]) : j \in DOMAIN s} \ Ips(up')    \* asked, and gone at once
\* (somebody who just left may have been asked last)
States == /\ \E q \in {SFold(sq, Of("GetState"))} : q # Bad0 /\ sq' = IF q # None0 /\ q = sq /\ {up[c].ip : c \in {c \in DOMAIN up : up[c].h > 0}} \ Ips(up') # {} THEN [q EXCEPT !.hi = E.t1] ELSE q
          /\ Ok(<<"no state asked for", sq'>>, (Claiming(up') # {} /\ ~HBehind /\ StateStrictlyBehind(E.st.cand, E.st.conf)) => sq' # None0 /\ sq'.ip \in Ips(up') \cup ban' /\ ~TooLate(sq', Deadline))

(* ---- blocks ---- *)
BBehind == ~SBehind /\ BlocksBehind(net', E.st.conf, bs)
Lacking == LET o == Ran(E.st.orph)  top == Min(E.st.cand, E.st.conf + 400) IN {i \in E.st.conf + 1 .. top : i \notin o}
Reply(o) == E.e = "Msg" /\ o[1] = E.c /\ E.m = "Compact"
Peers == MaxOf(Cardinality(Most(up)), MaxOf(Cardinality(Most(up')), Cardinality(DOMAIN up)))
\* Peers that were banned or left in this very step may have been asked as well, before or after the others, and unseen.
Ghost == 2                                  \* k: 1 may have been asked for again unseen, 2 may have been asked for unseen
Leaving == {up[c].ip : c \in {c \in DOMAIN up : up[c].h > 0}} \ Ips(up')
Has(i) == i \in DOMAIN bq /\ bq[i].k # Ghost
AgainOf(i, ip) == /\ Has(i) /\ bq[i].ip = ip /\ (~bq[i].rt \/ bq[i].k = 1) /\ Late(bq[i], IF bq[i].rt THEN Again ELSE Deadline)
Free(i) == ~Has(i) \/ bq[i].ip \in ban'
Entry(i, from) == LET who == from[i]  ips == {IpOf(c) : c \in who}  live == ips \ ban' IN
    [ip |-> IF live # {} THEN CHOOSE ip \in live : TRUE ELSE CHOOSE ip \in ips : TRUE, lo |-> E.t0, hi |-> E.t1, k |-> 0, rt |-> live # {} /\ ~Free(i)]
Asked1(s, from) == \A i \in DOMAIN from : \E ips \in {{IpOf(c) : c \in from[i]}} :
    /\ Ok(<<"block asked of several", i, ips>>, Cardinality(ips \ ban') <= 1)
    /\ Ok(<<"block", i, "of", ips, IF Has(i) THEN bq[i] ELSE None0>>, \A c \in from[i] : AgainOf(i, IpOf(c)) \/ (Free(i) /\ May(c, FALSE)))
BLen(r) == IF r.rt THEN Again ELSE Deadline
Asked0 == {up[c].ip : c \in {c \in DOMAIN up : \E j \in DOMAIN E.out : E.out[j][1] = c /\ E.out[j][2] = "GetBlock"}}
BLate == {bq[i].ip : i \in {i \in DOMAIN bq : Late(bq[i], BLen(bq[i])) /\ (bq[i].rt \/ bq[i].ip \notin Ips(up) \/ bq[i].ip \notin Ips(up'))}}
\* a block asked for again of a peer that was just leaving: this may have got lost
Lost(r) == IF r.k # Ghost /\ r.ip \in Ips(up) \ Ips(up') /\ ~r.rt /\ Late(r, Deadline) THEN [r EXCEPT !.hi = MaxOf(E.t1, @ + Deadline - Again), !.rt = TRUE, !.k = 1] ELSE r
BlockReqs == LET s == Of("GetBlock") IN
    /\ Ok("too many at once", Len(s) = 0 \/ \E top \in {CHOOSE i \in {s[j][3][1] : j \in DOMAIN s} : \A j \in DOMAIN s : s[j][3][1] <= i} : Cardinality({i \in Lacking : i < top}) < PerPeer * Peers)
    /\ Ok("block asked twice", \A j \in DOMAIN s : IpOf(s[j][1]) \in ban' \/ \A k \in 1 .. j - 1 : s[k] # s[j])
    /\ \E from \in {[i \in {s[j][3][1] : j \in DOMAIN s} |-> {s[j][1] : j \in {j \in DOMAIN s : s[j][3][1] = i}}]} :
         /\ Asked1(s, from)
         /\ \E q \in {[i \in {i \in DOMAIN bq \cup DOMAIN from : i > E.st.conf} |-> Lost(IF i \in DOMAIN from THEN Entry(i, from) ELSE bq[i])]} :
              bq' = IF Leaving = {} THEN q ELSE [i \in DOMAIN q \cup Lacking |-> IF i \in DOMAIN q /\ q[i].ip \notin ban' THEN q[i] ELSE [None0 EXCEPT !.ip = CHOOSE p \in Leaving : TRUE, !.lo = E.t0, !.hi = E.t1, !.k = Ghost]]
    /\ bs' = (bs \/ (DOMAIN up' # {} /\ ~HBehind /\ ~SBehind /\ ~BBehind))
    /\ Ok("no blocks asked for", (Claiming(up') # {} /\ ~HBehind /\ BBehind) => \A i \in Lowest({i \in Lacking : i <= E.st.conf + 150}, First) : Ok(<<"block not asked for", i>>, i \in DOMAIN bq' /\ ~TooLate(bq'[i], BLen(bq'[i]))))

(* ---- what it says of itself ---- *)
Says == Ok(<<"status", net', hs, bs>>, DOMAIN up' # {} =>
     CASE HBehind -> E.st.status = "SYNCING_HEADERS" \/ (status = "SYNCING_TXHASHSET" /\ E.st.status = status)
       [] ~HBehind /\ StateStrictlyBehind(E.st.cand, E.st.conf) -> E.st.status \notin {"NOT_SYNCING", "SYNCING_BLOCKS"}
       [] ~HBehind /\ ~SBehind -> E.st.status = IF BBehind THEN "SYNCING_BLOCKS" ELSE "NOT_SYNCING"
       [] OTHER -> TRUE)
Own == IF "ip" \in DOMAIN E THEN {E.ip} ELSE {}
Rules == lost' = lost \cup ((Ips(up) \cup Ips(up')) \ (Ips(up) \cap Ips(up'))) /\ Headers /\ States /\ BlockReqs /\ Says /\ Ok("banned while catching up", ban' \ ban \subseteq HLate \cup SLate \cup SNow \cup BLate \cup lost \cup Own)

(* ---- answers of several blocks, and the state ---- *)
RECURSIVE Bodies(_, _)
Bodies(k, s) == IF s = <<>> THEN k ELSE Bodies(BodyOne(k, Head(s)[2][1]).k, Tail(s))
TBlocks == E.e = "Blocks" /\ Ok("up", E.c \in DOMAIN up) /\ Keep /\ \E bad \in {\E j \in DOMAIN E.ids : Bad(E.ids[j])} :
    /\ up' = Rest([up EXCEPT ![E.c] = Touch(@, FALSE)], {})
    /\ ch' = Settled(Bodies(ch, E.calls))
    /\ Ok("calls", /\ \A j \in DOMAIN E.calls : E.calls[j][1] = "AddBlock" /\ E.calls[j][2][1] \in Ran(E.ids) /\ (Bad(E.calls[j][2][1]) = (E.calls[j][3] = "INVALID"))
                   /\ (~bad => {E.calls[j][2][1] : j \in DOMAIN E.calls} = Ran(E.ids)))
    /\ \E good \in {{E.calls[j][2][1] : j \in {j \in DOMAIN E.calls : E.calls[j][3] = "SUCCESS"}}} : \A d \in DOMAIN up : LET s == OfC(d) IN
         /\ Ok("others", \A j \in DOMAIN s : Busy(ch', d, s[j]) \/ (d # E.c /\ s[j][2] = "Header" /\ s[j][3][1] \in good) \/ (d = E.c /\ s[j][2] = "GetCompact"))
         /\ Ok("announced", (d # E.c /\ status # "SYNCING_BLOCKS" /\ E.st.status # "SYNCING_BLOCKS") => \A i \in good : d \notin DOMAIN up' \/ Cardinality({j \in DOMAIN s : s[j][2] = "Header" /\ s[j][3][1] = i}) = 1)
    /\ Ok("strangers", Strangers(ch', {})) /\ Gone(IF bad THEN {E.c} ELSE {}, {}) /\ Bans(IF bad THEN {up[E.c].ip} ELSE {}, {})
TGive == E.e = "Give" /\ Ok("up", E.c \in DOMAIN up) /\ Keep /\ \E w \in {IF status # "SYNCING_TXHASHSET" THEN "early" ELSE E.what} :
    /\ Calls(CASE w = "good" -> <<<<"ProcessState", <<E.id, E.size>>, "SUCCESS">>>> [] w \in {"bad", "none"} -> <<<<"ProcessState", <<E.id, E.size>>, "INVALID">>>> [] OTHER -> <<>>)
    /\ ch' = IF w = "good" /\ E.id > ch.conf /\ E.id <= ch.cand THEN Settled([ch EXCEPT !.conf = E.id]) ELSE ch
    /\ Ok("others", Others(ch', 0, {})) /\ Ok("strangers", Strangers(ch', {}))
    /\ Gone(IF w = "good" THEN {} ELSE {E.c}, {E.c}) /\ Bans(IF w = "good" THEN {} ELSE {up[E.c].ip}, {})
    /\ up' = Rest([up EXCEPT ![E.c] = Touch(@, FALSE)], IF w = "good" THEN {} ELSE {E.c})
SStep == \/ TStart /\ net' = 0 /\ hs' = FALSE /\ bs' = FALSE /\ hq' = None0 /\ bq' = <<>> /\ sq' = None0 /\ lost' = {}
         \/ TEnd /\ UNCHANGED <<net, hs, bs, hq, bq, sq, lost>>
         \/ (TConnect \/ THand \/ TMsg \/ TLeave \/ TAdvance \/ TBlocks \/ TGive) /\ Agree /\ PingsDue /\ Rules
SInit == TInit /\ net = 0 /\ hs = FALSE /\ bs = FALSE /\ hq = None0 /\ bq = <<>> /\ sq = None0 /\ lost = {}
SNext == l <= Len(Log) /\ SStep /\ l' = l + 1
SSpec == SInit /\ [][SNext]_svars
=============================================================================
