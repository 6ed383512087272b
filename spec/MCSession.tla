------------------------------ MODULE MCSession ------------------------------
\* All histories of a few names, passwords and sessions, with an intruder who tries everything but knows only some
\* passwords: what the intruder gets at, and when a wallet may disappear or change.
EXTENDS Session
CONSTANTS Ns, Pws, MaxSess, MaxSeeds
VARIABLES n, seeds, told, lost    \* sessions and seeds so far; (user, password) shown a seed or opened; wallets gone: with which password
vars == <<svars, n, seeds, told, lost>>
Init == users = <<>> /\ sess = <<>> /\ hears = <<>> /\ n = 0 /\ seeds = 0 /\ told = {} /\ lost = {}
Next ==
  \/ \E u \in Ns, p \in Pws : n < MaxSess /\ seeds < MaxSeeds /\ Create(u, seeds + 1, p, n + 1) /\ n' = n + 1 /\ seeds' = seeds + 1 /\ UNCHANGED <<told, lost>>
  \/ \E u \in Ns, p \in Pws, k \in 1 .. MaxSeeds : n < MaxSess /\ k <= seeds /\ Create(u, k, p, n + 1) /\ n' = n + 1 /\ UNCHANGED <<seeds, told, lost>>
  \/ \E u \in Ns, p \in Pws : n < MaxSess /\ Login(u, p, n + 1) /\ n' = n + 1 /\ told' = told \cup {<<users[u].seed, users[u].pw, p>>} /\ UNCHANGED <<seeds, lost>>
  \/ \E s \in 1 .. n : Logout(s) /\ UNCHANGED <<n, seeds, told, lost>>
  \/ \E u \in Ns, p, q \in Pws : Change(u, p, q) /\ told' = told \cup {<<users[u].seed, users[u].pw, p>>} /\ UNCHANGED <<n, seeds, lost>>
  \/ \E u \in Ns, p \in Pws : Delete(u, p) /\ lost' = lost \cup {<<u, users[u].pw, p, Open(u)>>} /\ UNCHANGED <<n, seeds, told>>
  \/ Restart /\ UNCHANGED <<n, seeds, told, lost>>
Spec == Init /\ [][Next]_vars
\* a seed was never shown for a password other than the current one, nor a wallet deleted with one, or while open
OnlyPassword == (\A t \in told : t[2] = t[3]) /\ (\A d \in lost : d[2] = d[3] /\ d[4] = {})
Inv == Sound /\ OnlyPassword /\ DOMAIN hears \subseteq Names
\* sessions never move between wallets; other sessions survive a logout; a wallet's seed never changes while it exists
Stays == [][/\ \A s \in DOMAIN sess \cap DOMAIN sess' : sess[s] = sess'[s]
            /\ \A u \in Names \cap DOMAIN users' : users[u].seed = users'[u].seed
            /\ (sess' # <<>> \/ Cardinality(DOMAIN sess) <= 1 \/ UNCHANGED <<n, users, told, lost>>)
            /\ (Cardinality(DOMAIN sess \ DOMAIN sess') <= 1 \/ sess' = <<>>)]_vars
=============================================================================
