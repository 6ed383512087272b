------------------------------ MODULE NetTrace ------------------------------
(* Checks a recorded conversation between the real node and the peers of harness/net.cpp. *)
EXTENDS Net, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, asked    \* asked: the addresses the node ever sent a request of its own to
tvars == <<uni, ch, status, up, ban, served, l, asked>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[k] : k \in DOMAIN s}
Sel(s, P(_)) == SelectSeq(s, P)
OfC(c) == LET Mine(o) == o[1] = c IN SelectSeq(E.out, Mine)
Chain == [cand |-> E.st.cand, conf |-> E.st.conf, side |-> Ran(E.st.side), bodies |-> Ran(E.st.bodies), orph |-> Ran(E.st.orph), pool |-> Ran(E.st.pool)]
Bare(k) == [cand |-> k.cand, conf |-> k.conf, side |-> k.side, bodies |-> k.bodies, orph |-> k.orph, pool |-> k.pool]

(* ---- what the node may send of its own accord: pings, and requests while it is behind ---- *)
Behind == status # "NOT_SYNCING" \/ E.st.status # "NOT_SYNCING"
Busy(k, c, o) == \/ o[2] = "Ping" /\ o[3] \in {Tot(ch), Tot(k)}
                 \/ Behind /\ o[2] = "GetHeaders" /\ o[3] \in {Locator(ch.cand), Locator(k.cand)}
                 \/ Behind /\ o[2] = "GetBlock" /\ (o[3][1] > ch.conf /\ o[3][1] <= k.cand /\ (o[3][1] \notin ch.orph \/ o[3][1] \notin k.orph))
                 \/ Behind /\ o[2] = "GetState" /\ o[3][2] \in {ch.cand - 2880, k.cand - 2880} /\ o[3][1] = o[3][2]
                 \/ o[2] = "PeerAddrs"    \* checked on its own
\* the replies to c: those of the list, in this order, and nothing else but business of the node's own
RECURSIVE Fits(_, _, _, _)
Fits(s, want, k, c) == IF s = <<>> THEN want = <<>>
    ELSE LET o == Head(s)  t == <<o[2], IF o[2] = "PeerAddrs" THEN <<>> ELSE o[3]>> IN
         \/ want # <<>> /\ t = Head(want) /\ Fits(Tail(s), Tail(want), k, c)
         \/ Busy(k, c, o) /\ o[2] # "PeerAddrs" /\ Fits(Tail(s), want, k, c)
Others(k, c, cast) == \A d \in DOMAIN up \ {c} : LET s == OfC(d) IN
    /\ \A m \in cast : Cardinality({j \in DOMAIN s : <<s[j][2], s[j][3]>> = m}) = 1
    /\ \A j \in DOMAIN s : <<s[j][2], s[j][3]>> \in cast \/ (Busy(k, d, s[j]) /\ s[j][2] # "PeerAddrs")
\* nothing to anybody else, but for greetings of the node's own (and what it dials)
Greets(o) == \/ o[2] = "Connect" /\ o[3][1] \notin ban \cup uni.blocked \cup {up[c].ip : c \in DOMAIN up \ Ran(E.gone)}   \* (or it has just gone)
             \/ o[2] = "Hand" /\ o[3][1] = 1000 /\ o[3][3] = 1 /\ o[3][4] = 6
Strangers(k, cs) == \A j \in DOMAIN E.out : E.out[j][1] \in DOMAIN up \cup cs \/ Greets(E.out[j])
PeersTold == \A j \in DOMAIN E.out : E.out[j][2] = "PeerAddrs" => Ran(E.out[j][3]) \cap ban = {} /\ Len(E.out[j][3]) = Cardinality(Ran(E.out[j][3])) /\ Len(E.out[j][3]) <= 256

(* ---- times: [lo, hi] is when something happened at the earliest and at the latest ---- *)
Stale == {d \in DOMAIN up : E.t1 - up[d].rhi > 60400}
MayStale == {d \in DOMAIN up : E.t1 - up[d].rlo > 60000}
Pinged(d) == \E j \in DOMAIN E.out : E.out[j][1] = d /\ E.out[j][2] = "Ping"
PingsDue == \A d \in DOMAIN up' \cap DOMAIN up : /\ Ok(<<"ping", d, up'[d].plo, up'[d].phi, E.t1>>, Pinged(d) \/ E.t1 - up'[d].phi <= 12800)
                                  /\ Ok("early ping", Pinged(d) => E.t1 - up[d].plo > 10000)
Touch(u, ping) == [u EXCEPT !.rlo = E.t0, !.rhi = E.t1, !.plo = IF ping THEN E.t0 ELSE @, !.phi = IF ping THEN E.t1 ELSE @]
\* who is left: all but those that leave, and those the node gave up
Rest(u, go) == [d \in {d \in DOMAIN u : d \notin go /\ d \notin Ran(E.gone)} |-> IF Pinged(d) THEN [u[d] EXCEPT !.plo = E.t0, !.phi = E.t1] ELSE u[d]]
Expire(b) == {i \in DOMAIN b : E.t1 - b[i] <= 10800000 - 1000}
AskedNow == {up[c].ip : c \in {c \in DOMAIN up : \E j \in DOMAIN E.out : E.out[j][1] = c /\ E.out[j][2] \in {"GetHeaders", "GetBlock", "GetState"}}}
Agree == /\ Ok("chain", Chain = Bare(ch'))
         /\ Ok("connections", {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Ran(E.st.conns)} = {<<up'[c].ip, up'[c].td, up'[c].h, up'[c].ver, up'[c].own>> : c \in DOMAIN up'} /\ Len(E.st.conns) = Cardinality(DOMAIN up'))
         /\ Ok("connected", Ran(E.st.pc) = {up'[c].ip : c \in DOMAIN up'})
         /\ Ok("no peers", (E.st.status = "WAITING_FOR_PEERS") = (DOMAIN up' = {}) \/ (E.st.status = "WAITING_FOR_PEERS" /\ E.st.conf + 10080 < E.st.cand))
         /\ status' = E.st.status
         /\ asked' = asked \cup AskedNow \cup {up[c].ip : c \in DOMAIN up \ DOMAIN up'}
\* banned: those that are to be, and (while behind) peers that did not answer; they are gone as well
Bans(must, may) == LET now == Ran(E.st.ban)  late == IF Behind THEN asked \cup AskedNow ELSE {} IN
    /\ Ok("ban", must \subseteq now) /\ Ok("banned for nothing", now \subseteq ban \cup must \cup may \cup late)
    /\ Ok("ban lifted", ban \subseteq now \/ (E.e = "Advance" /\ E.dt > 7300))
    /\ Ok("banned but connected", \A c \in DOMAIN up : up[c].ip \in now \cap ban => c \in Ran(E.gone) \/ (E.e = "Leave" /\ E.c = c))
    /\ ban' = now
Gone(must, may) == /\ Ok("not closed", must \cap DOMAIN up \subseteq Ran(E.gone)) /\ Ok("closed for nothing", Ran(E.gone) \cap DOMAIN up \subseteq must \cup may \cup MayStale \cup {c \in DOMAIN up : up[c].ip \in Ran(E.st.ban)})
                   /\ Ok("idle", Stale \subseteq Ran(E.gone) \cup must \cup may)
Calls(want) == Ok("calls", E.calls = want)
Quiet == Calls(<<>>) /\ ch' = Settled(ch)

TStart == E.e = "Start" /\ uni' = [side |-> [i \in {x[1] : x \in Ran(E.side)} |-> LET x == CHOOSE x \in Ran(E.side) : x[1] = i IN [p |-> x[2], h |-> x[3], td |-> x[4], bad |-> x[5] = 1]],
                                   tdu |-> E.tdu, missing |-> Ran(E.cm), tx |-> E.txk, horizon |-> E.horizon, size |-> E.size, max |-> E.max, blocked |-> {24}]
          /\ ch' = [cand |-> E.st.cand, conf |-> E.st.conf, side |-> Ran(E.st.side), bodies |-> Ran(E.st.bodies), orph |-> Ran(E.st.orph), pool |-> Ran(E.st.pool), stem |-> {}]
          /\ up' = <<>> /\ ban' = {} /\ served' = <<>> /\ Agree
Keep == UNCHANGED <<uni, served>>
New(c, ip, td, ver, own) == [ip |-> ip, td |-> td, h |-> 0, ver |-> IF ver < 1000 THEN ver ELSE 1000, own |-> own, rlo |-> E.t0, rhi |-> E.t1, plo |-> E.t0, phi |-> E.t1]
TConnect == E.e = "Connect" /\ Quiet /\ Keep /\ Ok("others", Others(ch', 0, {})) /\ Ok("strangers", Strangers(ch', {}))
            /\ Ok("let in", MayConnect(E.ip) \/ E.c \in Ran(E.gone)) /\ Ok("kept out", MayConnect(E.ip) => E.c \notin Ran(E.gone)) /\ Gone({}, {}) /\ Bans({}, {}) /\ up' = Rest(up, {})
THand == E.e = "Hand" /\ Quiet /\ Keep /\ Ok("others", Others(ch', E.c, {})) /\ Ok("strangers", Strangers(ch', {E.c})) /\ Gone({}, {}) /\ Bans({}, {})
         /\ \E ok \in {MayShake(E.ip, E.kind)} : LET s == OfC(E.c) IN
              /\ Ok("greeting", IF ok THEN Len(s) >= 1 /\ s[1][2] = "Shake" /\ s[1][3] = <<IF E.ver < 1000 THEN E.ver ELSE 1000, Td(ch.conf), 1, 6>> /\ (\A j \in 2 .. Len(s) : Busy(ch', E.c, s[j])) ELSE s = <<>>)
              /\ Ok("refused", ok \/ E.c \in Ran(E.gone) \/ E.kind \in {"silent", "part"})
              /\ up' = Rest(IF ok THEN [d \in DOMAIN up \cup {E.c} |-> IF d = E.c THEN New(d, E.ip, E.td, E.ver, 0) ELSE up[d]] ELSE up, {})
TShake == E.e = "Shake" /\ Quiet /\ Keep /\ Ok("others", Others(ch', E.c, {})) /\ Ok("strangers", Strangers(ch', {E.c})) /\ Gone({}, {}) /\ Bans({}, {})
          /\ \E s \in {OfC(E.c)} : \E ok \in {s # <<>>} :
              /\ Ok("shaken", ok => E.kind = "good" /\ E.ip \notin ban /\ s[1] = <<E.c, "GetPeerAddrs", <<6>>>>)
              /\ up' = Rest(IF ok THEN [d \in DOMAIN up \cup {E.c} |-> IF d = E.c THEN New(d, E.ip, E.td, E.ver, 1) ELSE up[d]] ELSE up, {})
TMsg == E.e = "Msg" /\ Ok("up", E.c \in DOMAIN up) /\ UNCHANGED uni /\ \E r \in {React(E.c, E.m, E.x, E.t0)} : \E k \in {Settled(r.k)} :
          /\ Calls(r.call) /\ ch' = k
          /\ Ok("reply", Fits(OfC(E.c), r.out, k, E.c)) /\ Ok("others", Others(k, E.c, r.cast)) /\ Ok("strangers", Strangers(k, {})) /\ Ok("peers told", PeersTold)
          /\ Gone(IF r.ban THEN {E.c} ELSE {}, {}) /\ Bans(IF r.ban THEN {up[E.c].ip} ELSE {}, {})
          /\ served' = IF r.served THEN [i \in DOMAIN served \cup {up[E.c].ip} |-> IF i = up[E.c].ip THEN E.t0 ELSE served[i]] ELSE served
          /\ up' = Rest([up EXCEPT ![E.c] = Touch(IF r.tot = <<>> THEN @ ELSE [@ EXCEPT !.td = r.tot[1], !.h = r.tot[2]], E.m \in {"Ping", "Pong"})], {})
\* several requests at once: the replies come in the same order
RECURSIVE Outs(_, _)
Outs(c, ms) == IF ms = <<>> THEN <<>> ELSE React(c, ms[1][1], ms[1][2], E.t0).out \o Outs(c, Tail(ms))
LastTot(ms) == LET p == {j \in DOMAIN ms : ms[j][1] = "Ping"} IN IF p = {} THEN <<>> ELSE ms[CHOOSE j \in p : \A i \in p : i <= j][2]
TBurst == E.e = "Burst" /\ Ok("up", E.c \in DOMAIN up) /\ Quiet /\ Keep /\ Ok("replies", Fits(OfC(E.c), Outs(E.c, E.ms), ch', E.c)) /\ Ok("others", Others(ch', E.c, {})) /\ Ok("strangers", Strangers(ch', {})) /\ Gone({}, {}) /\ Bans({}, {})
          /\ \E t \in {LastTot(E.ms)} : up' = Rest([up EXCEPT ![E.c] = Touch(IF t = <<>> THEN @ ELSE [@ EXCEPT !.td = t[1], !.h = t[2]], t # <<>>)], {})
\* bytes that are no message: the connection ends, nobody else notices; noise may be anything to its sender alone
TGarbage == E.e = "Garbage" /\ Ok("up", E.c \in DOMAIN up) /\ UNCHANGED uni /\ \E w \in {IF E.what = "cuttx" THEN (IF Listening THEN "cut" ELSE "none") ELSE E.what} :
              IF w = "noise" THEN ch' = [Chain EXCEPT !.pool = @] @@ [stem |-> ch.stem] /\ Ok("strangers", Strangers(ch', {})) /\ Ok("others lost", Ran(E.gone) \cap DOMAIN up \subseteq {E.c} \cup MayStale \cup {d \in DOMAIN up : up[d].ip \in Ran(E.st.ban)}) /\ Bans({}, {up[E.c].ip}) /\ served' = served
                   /\ \E x \in {{y \in Ran(E.st.conns) : y[1] = up[E.c].ip}} : up' = Rest([up EXCEPT ![E.c] = IF x = {} THEN @ ELSE LET y == CHOOSE y \in x : TRUE IN [Touch(@, FALSE) EXCEPT !.td = y[2], !.h = y[3], !.plo = up[E.c].plo, !.phi = E.t1]], {})
              ELSE /\ Quiet /\ Keep /\ Ok("reply to garbage", \A j \in DOMAIN OfC(E.c) : Busy(ch', E.c, OfC(E.c)[j])) /\ Ok("others", Others(ch', E.c, {})) /\ Ok("strangers", Strangers(ch', {}))
                   /\ Gone(IF w = "none" THEN {} ELSE {E.c}, {}) /\ Bans({}, {}) /\ up' = Rest([up EXCEPT ![E.c] = Touch(@, FALSE)], {})
TLeave == E.e = "Leave" /\ Quiet /\ Keep /\ Ok("others", Others(ch', E.c, {})) /\ Gone({}, {E.c}) /\ Bans({}, {}) /\ up' = Rest(up, {E.c})
TAdvance == E.e = "Advance" /\ Quiet /\ Keep /\ Ok("others", Others(ch', 0, {})) /\ Ok("strangers", Strangers(ch', {})) /\ Gone({}, {}) /\ Bans({}, {}) /\ up' = Rest(up, {})
TEnd == E.e = "End" /\ UNCHANGED <<uni, ch, status, up, ban, served, asked>>
TStep == \/ TStart \/ TEnd
         \/ (TConnect \/ THand \/ TShake \/ TMsg \/ TBurst \/ TGarbage \/ TLeave \/ TAdvance) /\ Agree /\ PingsDue
TInit == uni = <<>> /\ ch = <<>> /\ status = "" /\ up = <<>> /\ ban = {} /\ served = <<>> /\ asked = {} /\ l = 1
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
