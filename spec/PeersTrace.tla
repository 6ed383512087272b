----------------------------- MODULE PeersTrace -----------------------------
EXTENDS Peers, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, always, chosen, n   \* while picking again and again: who was eligible every time, who was picked
tvars == <<pvars, l, always, chosen, n>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[k] : k \in DOMAIN s}
Q == <<always, chosen, n>>
Row(i, p) == <<i, p.ban, p.contact, p.caps, p.ver, p.conn, Banned(p)>>
Agree == /\ Ok("clock", E.now = now')
         /\ Ok("known", Ran(E.known) = UNION {{Row(i, p)' : p \in Known(i)'} : i \in 0 .. n' - 1})
         /\ Ok("heard of", Ran(E.all) = {i \in DOMAIN peers' : peers'[i].contact # Never} /\ Len(E.all) = Cardinality(Ran(E.all)))
TReset == E.e = "Reset" /\ peers' = <<>> /\ stored' = <<>> /\ now' = E.now /\ n' = E.n /\ always' = {} /\ chosen' = {}
TNew == E.e = "New" /\ (\E s \in {Choice(E.cap)} : Ok("chosen", IF s = {} THEN E.r = -1 ELSE E.r \in s) /\ always' = always \cap s)
        /\ chosen' = chosen \cup {E.r} /\ (IF E.r = -1 THEN UNCHANGED pvars ELSE Pick(E.r)) /\ UNCHANGED n
TQuery == E.e = "Query" /\ (\E s \in {Answer(E.cap)} : Ok("answer", Ran(E.r) \subseteq s) /\ Ok("number", Len(E.r) = Cardinality(Ran(E.r)) /\ Len(E.r) = (IF Cardinality(s) < E.max THEN Cardinality(s) ELSE E.max))) /\ UNCHANGED <<pvars, Q>>
TSpread == E.e = "Spread" /\ UNCHANGED pvars /\ UNCHANGED n /\ chosen' = {} /\ always' = 0 .. n - 1 /\ (~E.on => Ok("every one in turn", always \subseteq chosen))
TOther == \/ E.e = "Fresh" /\ Learn(Ran(E.is))
          \/ E.e = "Get" /\ Learn({E.i})
          \/ E.e = "Ban" /\ Ban(E.i)
          \/ E.e = "Unban" /\ Unban(E.i)
          \/ E.e = "Connected" /\ Connected(E.i, E.on)
          \/ E.e = "Contact" /\ Contact(E.i)
          \/ E.e = "Caps" /\ Caps(E.i, E.c)
          \/ E.e = "Version" /\ Version(E.i, E.v)
          \/ E.e = "Advance" /\ Advance(E.dt)
          \/ E.e = "Recreate" /\ Reload
          \/ E.e = "Tidy" /\ Tidy
TStep == (TReset \/ TNew \/ TQuery \/ TSpread \/ (TOther /\ UNCHANGED Q)) /\ Agree
TInit == peers = <<>> /\ stored = <<>> /\ now = 0 /\ l = 1 /\ always = {} /\ chosen = {} /\ n = 0
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
