----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, Json, IOUtils, TLC
CONSTANT KIND
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Ran(s) == {s[n] : n \in DOMAIN s}
Rows(s) == {<<s[n][1], SubSeq(s[n], 2, Len(s[n]))>> : n \in DOMAIN s}
Empty == CASE KIND = "file" -> <<>> [] KIND = "bitmap" -> {} [] KIND = "chain" -> [conf |-> <<0>>, cand |-> <<0>>]
           [] KIND = "db" -> [h |-> {}, b |-> {}, s |-> {}, p |-> {}, x |-> {}, v |-> {<<0, <<0>>>>}]
Agree == CASE KIND = "file" -> Ok("content", E.log = cur')
           [] KIND = "bitmap" -> Ok("bits", Ran(E.set) = cur') /\ Ok("bitmap", Len(E.rset) = Cardinality(cur') /\ Ran(E.rset) = cur')
           [] KIND = "chain" -> Ok("confirmed", E.okf /\ E.conf = cur'.conf) /\ Ok("candidate", E.okc /\ E.cand = cur'.cand)
                             \* the search runs down from the shorter tip to the first equal pair
                             /\ Ok("common", E.common = Common(cur'.conf, cur'.cand))
           [] KIND = "db" -> /\ Ok("headers", {<<e[1], <<>>>> : e \in {e \in Ran(E.h) : e[2] = 0}} \cup {<<k, <<>>>> : k \in Ran(E.hb)} = cur'.h /\ \A e \in Ran(E.h) : e[2] = 0)
                             /\ Ok("blocks", Rows(E.b) = cur'.b) /\ Ok("sums", Rows(E.s) = cur'.s) /\ Ok("positions", Rows(E.p) = cur'.p)
                             /\ Ok("spent", Rows(E.x) = cur'.x) /\ Ok("version", cur'.v = {<<0, <<E.ver>>>>})
Other(c) == IF c = "conf" THEN "cand" ELSE "conf"
Effect ==
  CASE E.e = "Append" -> Extend(cur, E.ds)
    [] E.e = "Rewind" -> Shorten(cur, E.n)
    [] E.e = "Set" -> cur \cup Ran(E.is)
    [] E.e = "Unset" -> cur \ Ran(E.is)
    [] E.e = "Keep" -> Keep(cur, E.n, Ran(E.add))
    [] E.e = "Put" -> [cur EXCEPT ![E.t] = Put(@, E.k, E.v)]
    [] E.e = "PutHeaders" -> [cur EXCEPT !.h = @ \cup {<<k, <<>>>> : k \in Ran(E.ks)}]
    [] E.e = "Del" -> [cur EXCEPT !.p = Del(@, Ran(E.ks))]
    [] E.e = "Clear" -> [cur EXCEPT ![E.t] = {}]
    [] E.e = "Add" -> IF Fits(cur[E.c], E.h) THEN [cur EXCEPT ![E.c] = Extend(@, <<E.d>>)] ELSE cur
    [] E.e = "Cut" -> [cur EXCEPT ![E.c] = Shorten(@, E.h + 1)]
    [] E.e = "Follow" -> [cur EXCEPT ![E.c] = Follow(@, cur[Other(E.c)], E.h)]
    [] E.e = "Step" -> IF Fits(cur[E.c], E.h) /\ E.h < Len(cur[Other(E.c)]) THEN [cur EXCEPT ![E.c] = Extend(@, <<cur[Other(E.c)][E.h + 1]>>)] ELSE cur
Refused == CASE E.e = "Rewind" -> E.n > Len(cur)
             [] E.e = "Add" -> ~Fits(cur[E.c], E.h)
             [] E.e = "Cut" -> E.h >= Len(cur[E.c])
             [] E.e = "Follow" -> E.h >= Len(cur[Other(E.c)])
             [] E.e = "Step" -> ~(Fits(cur[E.c], E.h) /\ E.h < Len(cur[Other(E.c)]))
             [] OTHER -> FALSE
Ops == {"Append", "Rewind", "Set", "Unset", "Keep", "Put", "PutHeaders", "Del", "Clear", "Add", "Cut", "Follow", "Step"}
TReset == E.e = "Reset" /\ cur' = Empty /\ com' = Empty /\ mode' = "no"
TOpen == E.e = "Open" /\ Reopen
TBegin == E.e = "Begin" /\ Begin(E.m)
TOp == E.e \in Ops /\ Update(Effect) /\ ("r" \in DOMAIN E => Ok("refusal", (E.r = "refused") = Refused))
TCommit == E.e = "Commit" /\ Commit
TRollback == E.e = "Rollback" /\ Rollback
TEnd == E.e = "End" /\ End
TCompact == E.e = "Compact" /\ mode = "no" /\ cur' = (IF E.m = "drop" THEN cur ELSE [cur EXCEPT !.b = {e \in @ : 3 * e[1] >= Horizon(E.H)}]) /\ com' = cur' /\ UNCHANGED mode
TStep == (TReset \/ TOpen \/ TBegin \/ TOp \/ TCommit \/ TRollback \/ TEnd \/ TCompact) /\ Agree
TInit == cur = Empty /\ com = Empty /\ mode = "no" /\ l = 1
TNext == l <= Len(Log) /\ TStep /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Settled == mode = "no" => cur = com
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
