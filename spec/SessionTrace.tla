---------------------------- MODULE SessionTrace ----------------------------
\* Does a recorded history of the owner's API follow Session?
EXTENDS Session, Json, IOUtils, TLC, Sequences
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, port, owner    \* the port of each user's listener; the user of each port ever seen
vars == <<svars, l, port, owner>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[i] : i \in DOMAIN s}
\* what is seen after every step
Shows == /\ Ok("wallets listed", Ran(E.acc) = DOMAIN users')
         /\ Ok("listeners", Ran(E.live) = {port'[n] : n \in DOMAIN hears'})
         /\ Ok("files outside the wallets", E.safe)
P == UNCHANGED <<port, owner>>
\* a session given out: it is new, of the wallet with this seed, and shares the user's listener
Opened(n, seed) ==
  /\ Ok("wallet opened", E.seed = seed)
  /\ Ok("listener shared", n \in DOMAIN hears => E.port = port[n])
  /\ port' = [x \in DOMAIN port \cup {n} |-> IF x = n THEN E.port ELSE port[x]]
  /\ owner' = [x \in DOMAIN owner \cup {E.port} |-> IF x = E.port THEN n ELSE owner[x]]
May(c) == ~E.bad /\ c
Did(c, a) == Ok(IF E.r THEN "accepted" ELSE "refused", E.r = c) /\ IF E.r THEN a ELSE Nothing /\ P
TCreate == E.e = "Create" /\ Did(May(E.u \notin Names /\ E.pw # 0 /\ E.n \in {12, 15, 18, 21, 24}), Create(E.u, E.words, E.pw, E.tok) /\ Opened(E.u, E.words))
TRestore == E.e = "Restore" /\ Did(May(E.u \notin Names /\ E.pw # 0 /\ E.words # 0), Create(E.u, E.words, E.pw, E.tok) /\ Opened(E.u, E.words))
TLogin == E.e = "Login" /\ IF E.fail /\ ~E.r THEN Nothing /\ P ELSE Did(May(Knows(E.u, E.pw)), Login(E.u, E.pw, E.tok) /\ Opened(E.u, users[E.u].seed))
TLogout == E.e = "Logout" /\ P /\ IF E.of = 0 THEN Nothing ELSE Ok("logged out", E.r) /\ Logout(E.of)
Sure == {"balance", "address", "txs", "outputs", "scan", "wallet", "new address", "index", "untor", "tor", "coinbase", "receive"}
Tells == {"address", "wallet", "new address"}
TUse == E.e = "Use" /\ Nothing /\ P
  /\ IF E.of = 0 THEN Ok("used without a session", ~E.r)
     ELSE Ok("session refused", E.api \in Sure => E.r) /\ Ok("another's wallet", E.r /\ E.api \in Tells => E.seed = users[sess[E.of]].seed)
TSeed == E.e = "Seed" /\ Nothing /\ P /\ Ok("seed told", E.r = May(Knows(E.u, E.pw)) /\ (E.r => E.words = users[E.u].seed))
TDelete == E.e = "Delete" /\ Did(May(CanDelete(E.u, E.pw)), Delete(E.u, E.pw) /\ P)
TChange == E.e = "Change" /\ IF E.full /\ ~E.r THEN Nothing /\ P ELSE Did(May(Knows(E.u, E.pw)), Change(E.u, E.pw, E.to) /\ P)
\* a listener receives while its user has a session open
TPost == E.e = "Post" /\ Nothing /\ P /\ \E n \in {owner[E.port]} :
  \E on \in {(n \in DOMAIN hears) /\ (port[n] = E.port)} :
     IF on /\ ~E.r /\ hears[n] \notin DOMAIN sess THEN PrintT(<<"KNOWN", "C21-listener">>) ELSE Ok("received", E.r = on)
TRestart == E.e = "Restart" /\ Restart /\ P
TStep == (TCreate \/ TRestore \/ TLogin \/ TLogout \/ TUse \/ TSeed \/ TDelete \/ TChange \/ TPost \/ TRestart) /\ Shows /\ Ok("sound", Sound')
TInit == l = 1 /\ users = <<>> /\ sess = <<>> /\ hears = <<>> /\ port = <<>> /\ owner = <<>>
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
