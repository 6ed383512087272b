-------------------------------- MODULE Codec --------------------------------
(* The byte formats of what goes over the wire and onto the disk. Parse reads a value of a named type, as
   protocol version `from` writes it, and gives what version `to` writes for the same value; version 1 keeps
   every field, so the version 1 form stands for the value. A form is a sequence of chunks: what is ordered
   has g = 0, the members of a body's three lists have the list's number (a decoded body sorts them). *)
EXTENDS Integers, Sequences, SequencesExt
HUGE == 1000000000
PROOFSIZE == 42
MAXPROOF == 675
WEEK == 10080
FAIL == [ok |-> FALSE, i |-> 0, o |-> <<>>]
Got(i, o) == [ok |-> TRUE, i |-> i, o |-> o]
Plain(b) == <<[g |-> 0, b |-> b]>>
Has(s, i, n) == n <= Len(s) - i + 1
RECURSIVE NumR(_, _, _, _)
NumR(s, i, n, a) == IF n = 0 THEN a ELSE NumR(s, i + 1, n - 1, IF a >= 7000000 THEN HUGE ELSE 256 * a + s[i])
Num(s, i, n) == NumR(s, i, n, 0)
Bytes(s, i, n) == SubSeq(s, i, i + n - 1)
Raw(s, i, n) == IF Has(s, i, n) THEN Got(i + n, Plain(Bytes(s, i, n))) ELSE FAIL
Flat(o) == FlattenSeq([k \in 1..Len(o) |-> o[k].b])

(* What the unspent outputs say of an input's kind, in these runs. *)
Coinbase(commit) == commit[33] % 2

FeeOf(s, i) == <<0, 0, s[i + 2] % 16>> \o Bytes(s, i + 3, 5)
Zeros(n) == [k \in 1..n |-> 0]

Input(s, i, from, to) ==
    LET n == IF from >= 3 THEN 33 ELSE 34 IN
    IF ~Has(s, i, n) \/ (from < 3 /\ s[i] > 1) THEN FAIL
    ELSE LET c == Bytes(s, i + n - 33, 33) f == IF from >= 3 THEN Coinbase(c) ELSE s[i]
         IN Got(i + n, Plain((IF to >= 3 THEN <<>> ELSE <<f>>) \o c))

Kernel(s, i, from, to) ==
    IF ~Has(s, i, 1) THEN FAIL
    ELSE LET f == s[i]
             nf == IF from >= 2 /\ f = 1 THEN 0 ELSE 8
             nl == IF from < 2 THEN 8 ELSE IF f = 2 THEN 8 ELSE IF f = 3 THEN 2 ELSE 0
         IN IF f > 3 \/ ~Has(s, i, 1 + nf + nl + 97) THEN FAIL
            ELSE LET fee == IF nf = 0 THEN Zeros(8) ELSE FeeOf(s, i + 1)
                     lock == Zeros(8 - nl) \o Bytes(s, i + 1 + nf, nl) \* version 1 has room for a fee and a lock height the kind has not
                     n == Num(lock, 1, 8)
                     rest == Bytes(s, i + 1 + nf + nl, 97)
                 IN IF (f = 3 /\ n \notin 1..WEEK) \/ (f = 1 /\ fee # Zeros(8)) \/ (f \notin {2, 3} /\ lock # Zeros(8)) THEN FAIL
                    ELSE Got(i + 1 + nf + nl + 97,
                             Plain(<<f>> \o (IF to < 2 THEN fee \o lock
                                             ELSE CASE f = 0 -> fee [] f = 1 -> <<>> [] f = 2 -> fee \o lock [] f = 3 -> fee \o SubSeq(lock, 7, 8)) \o rest))

(* The nonces of a proof, packed one after the other; what is left of the last byte is zero. *)
Pow(s, i) ==
    IF ~Has(s, i, 1) THEN FAIL
    ELSE LET e == s[i] bits == e * PROOFSIZE n == (bits + 7) \div 8
         IN IF e \notin 1..63 \/ ~Has(s, i, n + 1) THEN FAIL
            ELSE IF bits % 8 # 0 /\ s[i + n] \div (2 ^ (bits % 8)) # 0 THEN FAIL
            ELSE Raw(s, i, n + 1)

(* The elements of each type: n raw bytes; a member of another type; a count of n bytes, which later lists of
   members (`j`: which count) use; text after its length. *)
R(n) == [k |-> "raw", n |-> n, t |-> "", g |-> 0]
T(t) == [k |-> "type", n |-> 0, t |-> t, g |-> 0]
C(n) == [k |-> "count", n |-> n, t |-> "", g |-> 0]
L(t, j, g) == [k |-> "list", n |-> j, t |-> t, g |-> g]
V(w, max) == [k |-> "text", n |-> w, t |-> "", g |-> max]
Hash == R(32)
Proof == V(8, MAXPROOF)
Segment(leaf) == <<R(9), C(8), L("u64", 1, 0), L("hash", 1, 0), C(8), L("u64", 2, 0), L(leaf, 2, 0), T("segproof")>>
Shape(t) ==
    CASE t = "hash" -> <<Hash>> [] t = "u64" -> <<R(8)>> [] t = "u16" -> <<R(2)>> [] t = "byte" -> <<R(1)>> [] t = "short" -> <<R(6)>>
      [] t = "proof" -> <<Proof>>
      [] t = "outid" -> <<T("kind"), R(33)>>
      [] t = "output" -> <<T("kind"), R(33), Proof>>
      [] t = "body" -> <<C(8), C(8), C(8), L("input", 1, 1), L("output", 2, 2), L("kernel", 3, 3)>>
      [] t \in {"tx", "mtx", "mstem"} -> <<Hash, T("body")>>
      [] t \in {"header", "mheader"} -> <<R(18), R(192), R(36), T("pow")>>
      [] t \in {"block", "mblock"} -> <<T("header"), T("body")>>
      [] t \in {"compact", "mcompact"} -> <<T("header"), R(8), C(8), C(8), C(8), L("output", 1, 0), L("kernel", 2, 0), L("short", 3, 0)>>
      [] t = "sums" -> <<R(66)>>
      [] t = "place" -> <<R(16)>>
      [] t = "spent" -> <<R(1), C(2), L("spentone", 1, 0)>>
      [] t = "spentone" -> <<R(49)>>
      [] t = "sock" -> <<T("ip"), R(2)>>
      [] t = "peer" -> <<T("ip"), R(2), R(8), V(8, HUGE), R(20)>>
      [] t = "mhand" -> <<R(24), T("sock"), T("sock"), V(8, HUGE), Hash>>
      [] t = "mshake" -> <<R(16), V(8, HUGE), Hash>>
      [] t \in {"mping", "mpong"} -> <<R(16)>>
      [] t \in {"mgetaddrs", "mban"} -> <<R(4)>>
      [] t = "maddrs" -> <<C(4), L("sock", 1, 0)>>
      [] t = "mgetheaders" -> <<C(1), L("hash", 1, 0)>>
      [] t = "mheaders" -> <<C(2), L("header", 1, 0)>>
      [] t \in {"mgetblock", "mgetcompact", "mgettx", "mkernel"} -> <<Hash>>
      [] t = "merror" -> <<R(4), V(8, HUGE)>>
      [] t = "mrequest" -> <<R(40)>> [] t = "marchive" -> <<R(48)>>
      [] t \in {"mgetbitmapseg", "mgetoutseg", "mgetproofseg", "mgetkernelseg"} -> <<R(41)>>
      [] t = "segproof" -> <<C(8), L("hash", 1, 0)>>
      [] t = "moutseg" -> <<Hash>> \o Segment("outid") \o <<Hash>>
      [] t = "mproofseg" -> <<Hash>> \o Segment("proof")
      [] t = "mkernelseg" -> <<Hash>> \o Segment("kernel")
      [] t = "mbitmapseg" -> <<Hash, R(9), C(2), L("bitmap", 1, 0), T("segproof"), Hash>>
      [] t = "ctx" -> <<R(64), C(8), L("coin", 1, 0), C(8), L("coin", 2, 0)>>
      [] t = "coinhead" -> <<R(1), V(8, HUGE), R(32), T("output"), R(25), V(8, HUGE)>>
      [] t = "paidhead" -> <<R(6), V(8, HUGE), V(8, HUGE), V(8, HUGE), R(40), T("maybefee"), T("maybeproof")>>
      [] t = "bitmappos" -> <<R(2), C(2), L("u16", 1, 0)>>

(* What a wallet keeps and sends. A slate's version 1 form (never written) has every field; what is written
   leaves out what has its usual value, which two bytes of flags tell. *)
Flag(b) == IF b THEN <<1>> ELSE <<0>>
SlateSig(s, i) == IF ~Has(s, i, 67) THEN FAIL
                  ELSE LET n == IF s[i] # 0 THEN 131 ELSE 67 IN IF Has(s, i, n) THEN Got(i + n, Plain(Flag(s[i] # 0) \o Bytes(s, i + 1, n - 1))) ELSE FAIL
PayProof(s, i) == IF ~Has(s, i, 65) THEN FAIL
                  ELSE LET n == IF s[i + 64] = 1 THEN 64 ELSE 0 IN IF Has(s, i, 65 + n) THEN Got(i + 65 + n, Plain(Bytes(s, i, 64) \o Flag(s[i + 64] = 1) \o Bytes(s, i + 65, n))) ELSE FAIL

RECURSIVE Parse(_, _, _, _, _), Slate(_, _, _, _), Elems(_, _, _, _, _, _, _, _), List(_, _, _, _, _, _, _, _)
Parse(t, s, i, from, to) ==
    CASE t = "fee" -> (IF Has(s, i, 8) THEN Got(i + 8, Plain(FeeOf(s, i))) ELSE FAIL)
      [] t = "kind" -> (IF Has(s, i, 1) /\ s[i] < 2 THEN Raw(s, i, 1) ELSE FAIL)
      [] t = "input" -> Input(s, i, from, to)
      [] t = "kernel" -> Kernel(s, i, from, to)
      [] t = "pow" -> Pow(s, i)
      [] t = "ip" -> (IF ~Has(s, i, 1) \/ s[i] > 1 THEN FAIL ELSE Raw(s, i, IF s[i] = 0 THEN 5 ELSE 17))
      [] t = "bitmap" -> (IF ~Has(s, i, 2) \/ s[i + 1] > 2 THEN FAIL ELSE IF s[i + 1] = 0 THEN Raw(s, i, 2 + 128 * s[i]) ELSE Parse("bitmappos", s, i, from, to))
      [] t = "slate" -> Slate(s, i, from, to)
      [] t = "slatesig" -> SlateSig(s, i)
      [] t = "payproof" -> PayProof(s, i)
      [] t = "slatecom" -> (IF ~Has(s, i, 35) \/ s[i + 1] > 1 THEN FAIL
                            ELSE LET p == IF s[i] = 0 THEN Got(i + 35, <<>>) ELSE Parse("proof", s, i + 35, from, to)
                                 IN IF p.ok THEN Got(p.i, Plain(Flag(s[i] # 0) \o Bytes(s, i + 1, 34)) \o p.o) ELSE FAIL)
      [] t = "maybefee" -> (IF ~Has(s, i, 1) THEN FAIL ELSE IF s[i] # 1 THEN Got(i + 1, Plain(<<0>>)) ELSE IF Has(s, i, 9) THEN Got(i + 9, Plain(<<1>> \o FeeOf(s, i + 1))) ELSE FAIL)
      [] t = "maybeproof" -> (IF ~Has(s, i, 1) THEN FAIL ELSE IF s[i] # 1 THEN Got(i + 1, Plain(<<0>>)) ELSE LET r == PayProof(s, i + 1) IN IF r.ok THEN Got(r.i, Plain(<<1>>) \o r.o) ELSE FAIL)
      [] t = "meta" -> (IF Has(s, i, 1) /\ s[i] = 0 THEN Raw(s, i, 21) ELSE FAIL)
      [] t = "seed" -> (IF ~Has(s, i, 1) \/ ~Has(s, i, IF s[i] = 0 THEN 25 ELSE 37) THEN FAIL
                        ELSE Got(Len(s) + 1, Plain(<<1>> \o Bytes(s, i + 1, 24) \o (IF s[i] = 0 THEN <<0, 2, 0, 0, 0, 0, 0, 16, 0, 0, 0, 2>> ELSE <<>>) \o SubSeq(s, i + 25, Len(s)))))
      [] t = "coin" -> (LET r == Parse("coinhead", s, i, from, to) IN IF ~r.ok \/ s[i] > 1 THEN FAIL ELSE IF r.i > Len(s) THEN r ELSE IF Has(s, r.i, 4) THEN Got(r.i + 4, r.o \o Plain(Bytes(s, r.i, 4))) ELSE FAIL)
      [] t = "paid" -> (LET r == Parse("paidhead", s, i, from, to) IN
                        IF ~r.ok \/ s[i] > 3 THEN FAIL ELSE IF r.i > Len(s) THEN r ELSE LET q == Parse("tx", s, r.i, from, to) IN IF q.ok THEN Got(q.i, r.o \o q.o) ELSE FAIL)
      [] OTHER -> Elems(Shape(t), 1, s, i, from, to, <<>>, <<>>)
Slate(s, i, from, to) ==
    IF ~Has(s, i, 54) \/ s[i + 20] \notin 1..6 THEN FAIL
    ELSE LET full == from = 1
             st == IF full THEN 31 ELSE s[i + 53]
             Bit(k) == (st \div (2 ^ k)) % 2 = 1
             p0 == i + 53 + (IF full THEN 0 ELSE 1)
             p1 == p0 + (IF Bit(0) THEN 1 ELSE 0)
             p2 == p1 + (IF Bit(1) THEN 8 ELSE 0)
             p3 == p2 + (IF Bit(2) THEN 8 ELSE 0)
             p4 == p3 + (IF Bit(3) THEN 1 ELSE 0)
             p5 == p4 + (IF Bit(4) THEN 8 ELSE 0)
         IN IF ~Has(s, p5, 1) THEN FAIL
            ELSE LET parts == IF Bit(0) THEN s[p0] ELSE 2
                     amount == IF Bit(1) THEN Bytes(s, p1, 8) ELSE Zeros(8)
                     fee == IF Bit(2) THEN FeeOf(s, p2) ELSE Zeros(8)
                     kind == IF Bit(3) THEN s[p3] ELSE 0
                     ttl == IF Bit(4) THEN Bytes(s, p4, 8) ELSE Zeros(8)
                     sigs == List("slatesig", s[p5], s, p5 + 1, from, to, 0, <<>>)
                     q == sigs.i
                     coms == IF ~sigs.ok THEN FAIL
                             ELSE IF full THEN (IF Has(s, q, 2) THEN List("slatecom", Num(s, q, 2), s, q + 2, from, to, 0, <<>>) ELSE FAIL)
                             ELSE IF ~Has(s, q, 1) THEN FAIL
                             ELSE IF s[q] % 2 = 0 THEN Got(q + 1, <<>>)
                             ELSE IF Has(s, q, 3) THEN List("slatecom", Num(s, q + 1, 2), s, q + 3, from, to, 0, <<>>) ELSE FAIL
                     proof == IF ~coms.ok THEN FAIL
                              ELSE IF full THEN (IF ~Has(s, coms.i, 1) THEN FAIL ELSE IF s[coms.i] = 0 THEN Got(coms.i + 1, <<>>) ELSE PayProof(s, coms.i + 1))
                              ELSE IF (s[q] \div 2) % 2 = 1 THEN PayProof(s, coms.i) ELSE Got(coms.i, <<>>)
                     lock == IF ~proof.ok THEN FAIL ELSE IF full \/ kind = 2 THEN Raw(s, proof.i, 8) ELSE Got(proof.i, Plain(Zeros(8)))
                     n == Len(coms.o)
                     some == <<parts # 2, amount # Zeros(8), fee # Zeros(8), kind # 0, ttl # Zeros(8)>>
                     If(b, x) == IF b THEN x ELSE <<>>
                     bits == (IF some[1] THEN 1 ELSE 0) + (IF some[2] THEN 2 ELSE 0) + (IF some[3] THEN 4 ELSE 0) + (IF some[4] THEN 8 ELSE 0) + (IF some[5] THEN 16 ELSE 0)
                 IN IF kind > 3 \/ ~lock.ok THEN FAIL
                    ELSE Got(lock.i, Plain(Bytes(s, i, 53) \o
                           (IF to = 1 THEN <<parts>> \o amount \o fee \o <<kind>> \o ttl \o <<s[p5]>> \o Flat(sigs.o) \o <<n \div 256, n % 256>> \o Flat(coms.o) \o Flag(proof.o # <<>>) \o Flat(proof.o) \o Flat(lock.o)
                            ELSE <<bits>> \o If(some[1], <<parts>>) \o If(some[2], amount) \o If(some[3], fee) \o If(some[4], <<kind>>) \o If(some[5], ttl) \o <<s[p5]>> \o Flat(sigs.o)
                                 \o <<(IF n > 0 THEN 1 ELSE 0) + (IF proof.o # <<>> THEN 2 ELSE 0)>> \o If(n > 0, <<n \div 256, n % 256>>) \o Flat(coms.o) \o Flat(proof.o) \o If(kind = 2, Flat(lock.o)))))
Elems(e, k, s, i, from, to, c, o) ==
    IF k > Len(e) THEN Got(i, o)
    ELSE LET x == e[k] IN
         CASE x.k = "raw" -> (LET r == Raw(s, i, x.n) IN IF r.ok THEN Elems(e, k + 1, s, r.i, from, to, c, o \o r.o) ELSE FAIL)
           [] x.k = "type" -> (LET r == Parse(x.t, s, i, from, to) IN IF r.ok THEN Elems(e, k + 1, s, r.i, from, to, c, o \o r.o) ELSE FAIL)
           [] x.k = "count" -> (LET r == Raw(s, i, x.n) IN IF r.ok THEN Elems(e, k + 1, s, r.i, from, to, Append(c, Num(s, i, x.n)), o \o r.o) ELSE FAIL)
           [] x.k = "text" -> (IF ~Has(s, i, x.n) THEN FAIL
                               ELSE LET m == Num(s, i, x.n) IN IF m > x.g \/ m >= HUGE \/ ~Has(s, i, x.n + m) THEN FAIL ELSE Elems(e, k + 1, s, i + x.n + m, from, to, c, o \o Plain(Bytes(s, i, x.n + m))))
           [] x.k = "list" -> (IF c[x.n] > Len(s) THEN FAIL
                               ELSE LET r == List(x.t, c[x.n], s, i, from, to, x.g, <<>>) IN IF r.ok THEN Elems(e, k + 1, s, r.i, from, to, c, o \o r.o) ELSE FAIL)
List(t, n, s, i, from, to, g, o) ==
    IF n = 0 THEN Got(i, o)
    ELSE LET r == Parse(t, s, i, from, to) IN IF r.ok THEN List(t, n - 1, s, r.i, from, to, g, Append(o, [g |-> g, b |-> Flat(r.o)])) ELSE FAIL

(* The whole of v, which is a version 1 form, as version `to` writes it. *)
Whole(t, v, to) == LET r == Parse(t, v, 1, 1, to) IN IF r.ok /\ r.i = Len(v) + 1 THEN Flat(r.o) ELSE <<-1>>
(* The same value, up to the order of a body's members. *)
Group(o, g) == SelectSeq(o, LAMBDA x : x.g = g)
Times(o, x) == Len(SelectSeq(o, LAMBDA y : y = x))
SameForm(a, b) == /\ Flat(Group(a, 0)) = Flat(Group(b, 0))
                  /\ \A g \in 1..3 : LET p == Group(a, g) q == Group(b, g) IN Len(p) = Len(q) /\ (p = q \/ \A k \in 1..Len(p) : Times(p, p[k]) = Times(q, p[k]))
SameValue(t, v, o) == LET r == Parse(t, v, 1, 1, 1) IN r.ok /\ r.i = Len(v) + 1 /\ SameForm(r.o, o)

(* What a value's identity is the hash of. *)
Kinds == {"input", "output", "kernel", "tx", "header"}
Hashed(t, v) == CASE t = "input" -> SubSeq(v, 2, 34)
                  [] t = "output" -> SubSeq(v, 1, 34)
                  [] t \in {"kernel", "tx"} -> v
                  [] t = "header" -> SubSeq(v, 248, Len(v))

(* Messages: two magic bytes, the type, the length of the rest; how long each may be, and four times that. *)
TypeNo == [merror |-> 0, mhand |-> 1, mshake |-> 2, mping |-> 3, mpong |-> 4, mgetaddrs |-> 5, maddrs |-> 6, mgetheaders |-> 7, mheader |-> 8, mheaders |-> 9, mgetblock |-> 10, mblock |-> 11,
           mgetcompact |-> 12, mcompact |-> 13, mstem |-> 14, mtx |-> 15, mrequest |-> 16, marchive |-> 17, mban |-> 18, mgettx |-> 19, mkernel |-> 20, mgetbitmapseg |-> 21, mbitmapseg |-> 22,
           mgetoutseg |-> 23, moutseg |-> 24, mgetproofseg |-> 25, mproofseg |-> 26, mgetkernelseg |-> 27, mkernelseg |-> 28]
Block == (40000 \div 21) * 708
Longest == <<128, 88, 16, 16, 4, 4 + 19 * 256, 1 + 32 * 20, 365, 2 + 365 * 512, 32, Block, 32, Block \div 10, Block, Block, 40, 64, 64, 32, 32, 41, 2 * Block, 41, 2 * Block, 41, 2 * Block, 41, 2 * Block>>
Num4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Frame(magic, t, n) == magic \o <<TypeNo[t], 0, 0, 0, 0>> \o Num4(n)
RECURSIVE Exact(_, _, _)
Exact(s, i, n) == IF n = 0 THEN 0 ELSE 256 * Exact(s, i, n - 1) + s[i + n - 1]
FrameOK(magic, s) == /\ Len(s) >= 11 /\ SubSeq(s, 1, 2) = magic
                     /\ \A k \in 4..7 : s[k] = 0
                     /\ s[8] < 8 /\ Exact(s, 8, 4) <= 4 * (IF s[3] \in 1..28 THEN Longest[s[3]] ELSE 0)
(* Room a decoder may take in one piece for an input of n bytes. *)
Room(n) == 65536 + 64 * n
=============================================================================
