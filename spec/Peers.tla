------------------------------- MODULE Peers -------------------------------
(* What the node knows of its peers: in memory, and stored.  A record is
   [ban, contact, caps, ver, conn, dirty, attempt]; times are seconds, -1 stands for never. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BAN, RETRY, WEEK
VARIABLES peers, stored, now
pvars == <<peers, stored, now>>
Never == -1
New == [ban |-> Never, contact |-> Never, caps |-> 0, ver |-> 0, conn |-> FALSE, dirty |-> FALSE, attempt |-> Never]
Banned(p) == p.ban # Never /\ now - p.ban < BAN
RECURSIVE Bits(_, _)
Bits(a, b) == IF b = 0 THEN TRUE ELSE (b % 2 = 1 => a % 2 = 1) /\ Bits(a \div 2, b \div 2)   \* a has every bit of b
Due(p) == p.attempt = Never \/ now - p.attempt > RETRY
Eligible(c) == {i \in DOMAIN peers : ~Banned(peers[i]) /\ ~peers[i].conn /\ Due(peers[i]) /\ Bits(peers[i].caps, c)}
\* who may be connected to: one with the capability if there is any, or else anyone
Choice(c) == IF Eligible(c) # {} THEN Eligible(c) ELSE Eligible(0)
Having(c) == {i \in DOMAIN peers : ~Banned(peers[i]) /\ Bits(peers[i].caps, c)}
Answer(c) == IF Having(c) # {} THEN Having(c) ELSE Having(0)

With(i) == IF i \in DOMAIN peers THEN peers ELSE [j \in DOMAIN peers \cup {i} |-> IF j = i THEN New ELSE peers[j]]
Learn(is) == peers' = [j \in DOMAIN peers \cup is |-> IF j \in DOMAIN peers THEN peers[j] ELSE New] /\ UNCHANGED <<stored, now>>
Update(i, r) == peers' = [With(i) EXCEPT ![i] = r] /\ UNCHANGED <<stored, now>>
At(i) == With(i)[i]
Ban(i) == Update(i, [At(i) EXCEPT !.ban = now, !.dirty = TRUE, !.attempt = IF i \in DOMAIN peers THEN @ ELSE now])
Unban(i) == IF i \in DOMAIN peers THEN Update(i, [peers[i] EXCEPT !.ban = Never, !.dirty = TRUE]) ELSE UNCHANGED pvars
Connected(i, on) == Update(i, [At(i) EXCEPT !.conn = on, !.dirty = TRUE])
Contact(i) == Update(i, [At(i) EXCEPT !.contact = now])
Caps(i, c) == Update(i, [At(i) EXCEPT !.caps = c])
Version(i, v) == Update(i, [At(i) EXCEPT !.ver = v, !.dirty = TRUE])
Pick(i) == Update(i, [peers[i] EXCEPT !.attempt = now])
Advance(d) == now' = now + d /\ UNCHANGED <<peers, stored>>
\* what changed is stored; the others are forgotten a week after they were last heard of, unless they are banned
Kept(p) == [p EXCEPT !.conn = FALSE, !.dirty = FALSE, !.attempt = Never]
Old(p) == ~p.dirty /\ p.contact # Never /\ now - p.contact > WEEK /\ ~Banned(p)
Tidied(m, st) == LET gone == {i \in DOMAIN m : Old(m[i])} changed == {i \in DOMAIN m : m[i].dirty}
  IN  [m |-> [i \in DOMAIN m \ gone |-> [m[i] EXCEPT !.dirty = FALSE]],
       s |-> [i \in (DOMAIN st \cup changed) \ gone |-> IF i \in changed THEN Kept(m[i]) ELSE st[i]]]
Tidy == \E t \in {Tidied(peers, stored)} : peers' = t.m /\ stored' = t.s /\ UNCHANGED now
\* on its way out the manager tidies up, and so does the next one at once
Reload == \E t \in {Tidied(peers, stored)} : \E u \in {Tidied(t.s, t.s)} : peers' = u.m /\ stored' = u.s /\ UNCHANGED now
Known(i) == IF i \in DOMAIN peers THEN {peers[i]} ELSE IF i \in DOMAIN stored THEN {stored[i]} ELSE {}
=============================================================================
