------------------------------ MODULE Session ------------------------------
\* Users' wallets, the sessions their passwords open, and the listeners that receive payments for them.
EXTENDS Naturals, FiniteSets, Functions
VARIABLES users,    \* name -> [seed, pw]: the wallets there are
          sess,     \* id of an open session -> name
          hears     \* name -> id of the session the user's listener was opened with
svars == <<users, sess, hears>>
Names == DOMAIN users
Open(n) == {s \in DOMAIN sess : sess[s] = n}
Knows(n, pw) == n \in Names /\ users[n].pw = pw
\* a session opens; the first one of a user opens the listener
Enter(s, n) ==
  /\ sess' = [x \in DOMAIN sess \cup {s} |-> IF x = s THEN n ELSE sess[x]]
  /\ hears' = IF n \in DOMAIN hears THEN hears ELSE [x \in DOMAIN hears \cup {n} |-> IF x = n THEN s ELSE hears[x]]
Create(n, seed, pw, s) == n \notin Names /\ users' = [x \in Names \cup {n} |-> IF x = n THEN [seed |-> seed, pw |-> pw] ELSE users[x]] /\ Enter(s, n)
Login(n, pw, s) == Knows(n, pw) /\ Enter(s, n) /\ UNCHANGED users
\* the last session of a user closes the listener
Logout(s) == s \in DOMAIN sess /\ UNCHANGED users
  /\ sess' = Restrict(sess, DOMAIN sess \ {s})
  /\ hears' = IF Open(sess[s]) = {s} THEN Restrict(hears, DOMAIN hears \ {sess[s]}) ELSE hears
Change(n, pw, new) == Knows(n, pw) /\ users' = [users EXCEPT ![n].pw = new] /\ UNCHANGED <<sess, hears>>
CanDelete(n, pw) == Knows(n, pw) /\ Open(n) = {}
Delete(n, pw) == CanDelete(n, pw) /\ users' = Restrict(users, Names \ {n}) /\ UNCHANGED <<sess, hears>>
Restart == sess' = <<>> /\ hears' = <<>> /\ UNCHANGED users
Nothing == UNCHANGED svars
\* what always holds: a session is of a wallet there is, and a user has a listener while a session is open
Sound == /\ \A s \in DOMAIN sess : sess[s] \in Names
         /\ DOMAIN hears = {sess[s] : s \in DOMAIN sess}
=============================================================================
