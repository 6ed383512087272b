------------------------------- MODULE MCCodec -------------------------------
(* The formats themselves: what one version writes another one reads as the same value, nothing that is cut
   is read, and what follows a value does not matter. Strings are built piece by piece from a few bytes. *)
EXTENDS Codec, TLC
CONSTANT FULL
VARIABLES t, from, s
Types == {"fee", "kind", "kernel", "input", "output", "outid", "ip", "sock", "bitmap", "mgetheaders", "segproof", "spent", "maddrs", "body", "pow"}
Versions == {1, 2, 3, 1000}
Fill(n, b) == [k \in 1..n |-> b]
Pieces == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<255>>, Zeros(7), Zeros(8), Zeros(6) \o <<39, 96>>, <<0, 0, 31>> \o Fill(5, 9), Fill(32, 7), Fill(33, 6), Fill(64, 5), Fill(97, 8)}
MAXLEN == IF FULL THEN 4 ELSE 3
VARIABLE n
Init == t \in Types /\ from \in Versions /\ s = <<>> /\ n = 0
Next == n < MAXLEN /\ n' = n + 1 /\ UNCHANGED <<t, from>> /\ \E p \in Pieces : s' = s \o p
MSpec == Init /\ [][Next]_<<t, from, s, n>>
R0 == Parse(t, s, 1, from, 1)
(* Every version writes the value so that it is read back. An input's kind is not written from version 3 on:
   there the unspent outputs say it. *)
Readable == LET r == R0 IN r.ok => \A to \in Versions :
              LET w == Parse(t, s, 1, from, to) b == Flat(w.o) q == Parse(t, b, 1, to, 1)
                  Same(x, y) == IF to >= 3 /\ from < 3 /\ t \in {"input", "body"} THEN Len(x) = Len(y) ELSE x = y
              IN w.ok /\ w.i = r.i /\ q.ok /\ q.i = Len(b) + 1 /\ Same(Flat(q.o), Flat(r.o))
Uncut == LET r == R0 IN r.ok => \A k \in 0..(r.i - 2) : ~Parse(t, SubSeq(s, 1, k), 1, from, 1).ok
Local == LET r == R0 IN r.ok => r = Parse(t, s \o <<1, 2, 3>>, 1, from, 1) /\ r = Parse(t, SubSeq(s, 1, r.i - 1), 1, from, 1)
Within == LET r == R0 IN r.ok => r.i <= Len(s) + 1
(* The same version writes the same bytes again, but for what it does not keep of a fee. *)
Again == LET r == Parse(t, s, 1, from, from) b == Flat(r.o) IN r.ok => Len(b) = r.i - 1 /\ (t \notin {"fee", "kernel", "body"} => b = SubSeq(s, 1, r.i - 1)) /\ Flat(Parse(t, b, 1, from, from).o) = b
==============================================================================
