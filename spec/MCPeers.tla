------------------------------- MODULE MCPeers -------------------------------
(* Every history of two peers over a few moments: a ban holds until it is over or lifted, whatever is tidied
   away or reloaded in between, and nobody is tried twice within the interval (unless forgotten in between). *)
EXTENDS Peers
CONSTANTS P, MAXT
VARIABLES hb, hp
vars == <<pvars, hb, hp>>
H == UNCHANGED <<hb, hp>>
Init == peers = <<>> /\ stored = <<>> /\ now = 0 /\ hb = [i \in P |-> Never] /\ hp = [i \in P |-> Never]
Next == \/ \E s \in SUBSET P : s # {} /\ Learn(s) /\ H
        \/ \E i \in P : Ban(i) /\ hb' = [hb EXCEPT ![i] = now] /\ UNCHANGED hp
        \/ \E i \in P : Unban(i) /\ hb' = [hb EXCEPT ![i] = Never] /\ UNCHANGED hp
        \/ \E i \in P, on \in BOOLEAN : Connected(i, on) /\ H
        \/ \E i \in P : Contact(i) /\ H
        \/ \E i \in P : Caps(i, 1) /\ H
        \/ \E c \in 0 .. 1 : \E i \in Choice(c) : Pick(i) /\ hp' = [hp EXCEPT ![i] = now] /\ UNCHANGED hb
        \/ now < MAXT /\ Advance(1) /\ H
        \/ Tidy /\ hp' = [i \in P |-> IF i \in DOMAIN peers' THEN hp[i] ELSE Never] /\ UNCHANGED hb
        \/ Reload /\ hp' = [i \in P |-> Never] /\ UNCHANGED hb
Spec == Init /\ [][Next]_vars
BanKept == \A i \in P : hb[i] # Never /\ now - hb[i] < BAN => \E r \in Known(i) : Banned(r)
Picked == [][\A i \in P : hp'[i] # hp[i] /\ hp'[i] # Never => ~(hb[i] # Never /\ now - hb[i] < BAN) /\ (hp[i] # Never => now - hp[i] > RETRY)]_vars
NotHandedOut == \A c \in 0 .. 1 : \A i \in Answer(c) : ~(hb[i] # Never /\ now - hb[i] < BAN)
=============================================================================
