------------------------------- MODULE MCNet -------------------------------
(* Two peers and a third that would like to come in, against a short chain. *)
EXTENDS Net, TLC
CONSTANTS MaxMsgs
VARIABLES now, said, last   \* last: what the last message led to
vars == <<uni, ch, status, up, ban, served, now, said, last>>
Ips == 1 .. 3
Ids == {0, 1, 2, 3, 4, 10001, 10002, 20000}
Init == /\ uni = [side |-> (10001 :> [p |-> 1, h |-> 2, td |-> 19, bad |-> FALSE]) @@ (10002 :> [p |-> 10001, h |-> 3, td |-> 26, bad |-> FALSE]) @@ (20000 :> [p |-> 2, h |-> 3, td |-> 31, bad |-> TRUE]),
                  tdu |-> 10, missing |-> {4}, tx |-> <<0, 1, 2>>, horizon |-> 1, size |-> 5, max |-> 2, blocked |-> {3}]
        /\ ch = [cand |-> 3, conf |-> 2, side |-> {}, bodies |-> {}, orph |-> {}, pool |-> {}, stem |-> {}]
        /\ status \in {"NOT_SYNCING", "SYNCING_BLOCKS", "SYNCING_HEADERS"} /\ up = <<>> /\ ban = {} /\ served = <<>> /\ now = 0 /\ said = 0 /\ last = <<>>
Msgs == ({"Header", "Block", "Compact", "GetBlock", "GetCompact", "GetState"} \X {<<i>> : i \in Ids \cup {-1}}) \cup ({"Tx", "Stem", "GetTx", "Kernel"} \X {<<i>> : i \in 0 .. 2})
        \cup {<<"Ping", <<40, 4>>>>, <<"Archive", <<1, 1>>>>, <<"GetHeaders", <<10001, 1>>>>, <<"GetHeaders", <<-1>>>>, <<"Headers", <<3, 4, 2>>>>, <<"Headers", <<-1, -1, 0>>>>}
Keep == UNCHANGED <<uni, ch, status, served, now>>
Come(ip) == /\ said < MaxMsgs /\ said' = said + 1 /\ last' = <<>> /\ Keep /\ UNCHANGED ban
            /\ up' = IF MayShake(ip, "good") THEN [d \in DOMAIN up \cup {ip} |-> IF d = ip THEN [ip |-> ip, td |-> 10, h |-> 0] ELSE up[d]] ELSE up
Go(c) == said < MaxMsgs /\ said' = said + 1 /\ last' = <<>> /\ Keep /\ UNCHANGED ban /\ up' = [d \in DOMAIN up \ {c} |-> up[d]]
Hear(c, m) == /\ said < MaxMsgs /\ said' = said + 1 /\ UNCHANGED <<uni, status, now>>
              /\ \E r \in {React(c, m[1], m[2], now)} :
                   /\ ch' = Settled(r.k) /\ last' = [c |-> c, m |-> m, r |-> r] /\ ban' = IF r.ban THEN ban \cup {up[c].ip} ELSE ban
                   /\ served' = IF r.served THEN [i \in DOMAIN served \cup {up[c].ip} |-> IF i = up[c].ip THEN now ELSE served[i]] ELSE served
                   /\ up' = [d \in DOMAIN up \ (IF r.ban THEN {c} ELSE {}) |-> IF d = c /\ r.tot # <<>> THEN [up[d] EXCEPT !.td = r.tot[1], !.h = r.tot[2]] ELSE up[d]]
Later == now < 7200000 /\ now' = now + 3600000 /\ last' = <<>> /\ UNCHANGED <<uni, ch, status, up, ban, served, said>>
Next == (\E ip \in Ips : Come(ip)) \/ (\E c \in DOMAIN up : Go(c) \/ \E m \in Msgs : Hear(c, m)) \/ Later
Spec == Init /\ [][Next]_vars

Out == \A c \in DOMAIN up : up[c].ip \notin ban /\ up[c].ip \notin uni.blocked
Few == Cardinality(DOMAIN up) <= uni.max
Clean == /\ \A i \in ch.side \cup ch.bodies : ~Bad(i) /\ HasHdr(ch, Parent(i))
         /\ ch.conf <= ch.cand /\ \A i \in ch.pool \cup ch.stem : uni.tx[i + 1] = 0
\* nothing is handed out that the chain does not have, and nothing is asked for that it has
Honest == last = <<>> \/ \A o \in {last.r.out[j] : j \in DOMAIN last.r.out} :
    CASE o[1] \in {"Block", "Compact"} -> HasBody(ch, o[2][1])
      [] o[1] = "GetBlock" -> ~HasBody(ch, o[2][1])
      [] o[1] = "GetCompact" -> o[2][1] = Parent(last.m[2][1]) \/ ~HasBody(ch, o[2][1])
      [] o[1] = "Tx" -> o[2][1] \in ch.pool
      [] o[1] = "GetTx" -> o[2][1] \notin ch.pool
      [] o[1] = "Headers" -> o[2][2] = 0 \/ (o[2][1] + o[2][2] - 1 <= ch.cand /\ o[2][2] <= MaxHeaders)
      [] o[1] = "State" -> Hgt(o[2][1]) <= ch.conf
      [] OTHER -> TRUE
\* only what the chain took goes on to the others; only wrongdoing is punished
Gossip == last = <<>> \/ (/\ (last.r.cast # {} => last.r.call # <<>> /\ last.r.call[1][3] = "SUCCESS")
                          /\ (last.r.ban => (last.r.call # <<>> /\ last.r.call[1][3] = "INVALID") \/ last.m[1] \in {"GetState", "Archive"})
                          /\ (last.m[1] \in {"Stem"} => last.r.cast = {}) /\ \A m \in last.r.cast : m[1] \in {"Header", "Kernel"})
Unheard == last = <<>> \/ (~Listening /\ last.m[1] \in {"Tx", "Stem", "Kernel", "Header"} => last.r.call = <<>> /\ last.r.out = <<>>)
Grows == [][ch'.cand >= ch.cand /\ ch'.conf >= ch.conf /\ ch.side \subseteq ch'.side /\ ch.bodies \subseteq ch'.bodies /\ ban \subseteq ban']_vars
Twice == \A ip \in DOMAIN served : served[ip] <= now
LocatorOk == \A h \in 0 .. 70 : LET s == Locator(h) IN s[Len(s)] = 0 /\ (h > 0 => s[1] = h) /\ Len(s) <= 20 /\ \A j \in 1 .. Len(s) - 1 : s[j] > s[j + 1]
=============================================================================
