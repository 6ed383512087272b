-------------------------------- MODULE Wide --------------------------------
(* Natural numbers of any size, least digit first, in base 10000: TLC's own integers have 32 bits. *)
EXTENDS Integers, Sequences
LOCAL BASE == 10000
RECURSIVE WNorm(_), AddC(_, _, _), MulC(_, _, _), DivC(_, _, _, _), CmpI(_, _, _), WInt(_)
WNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN WNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a
WInt(n) == IF n <= 0 THEN <<>> ELSE <<n % BASE>> \o WInt(n \div BASE)
AddC(a, b, c) == IF a = <<>> /\ b = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
         IN <<s % BASE>> \o AddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), s \div BASE)
WAdd(a, b) == AddC(a, b, 0)
MulC(a, k, c) == IF a = <<>> THEN WInt(c) ELSE LET s == Head(a) * k + c IN <<s % BASE>> \o MulC(Tail(a), k, s \div BASE)
WMulS(a, k) == WNorm(MulC(a, k, 0))                 \* k up to 200000
RECURSIVE WMul(_, _)
WMul(a, b) == IF b = <<>> THEN <<>> ELSE WNorm(WAdd(WMulS(a, Head(b)), <<0>> \o WMul(a, Tail(b))))
DivC(a, k, i, r) == IF i = 0 THEN <<>> ELSE LET x == r * BASE + a[i] IN DivC(a, k, i - 1, x % k) \o <<x \div k>>
WDivS(a, k) == WNorm(DivC(a, k, Len(a), 0))         \* k up to 200000
CmpI(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1 ELSE CmpI(a, b, i - 1)
WCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1 ELSE CmpI(a, b, Len(a))
WLe(a, b) == WCmp(a, b) <= 0
WLt(a, b) == WCmp(a, b) < 0
WMax(a, b) == IF WLe(a, b) THEN b ELSE a
RECURSIVE SubC(_, _, _)
SubC(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
    IN <<(s + BASE) % BASE>> \o SubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF s < 0 THEN 1 ELSE 0)
WSub(a, b) == WNorm(SubC(a, b, 0))                  \* a >= b
Two64 == <<1616, 955, 737, 6744, 1844>>
=============================================================================
