------------------------------- MODULE MCSync -------------------------------
(***************************************************************************)
(* Catching up, with the peers' behaviour left open: honest ones answer    *)
(* within the deadline, silent ones never do, and boasters claim work they *)
(* cannot show.  Whatever the order of events, the node never goes beyond  *)
(* what the honest peers have, and where nobody boasts, an honest peer is  *)
(* never banned and the node ends up with everything.  (With a boaster the *)
(* code goes on asking the peer it asked first, and bans it: see DESIGN.)  *)
(***************************************************************************)
EXTENDS Sync
CONSTANTS Honest, Silent, Boasters, Top, Batch, Window
SmallSlack == 2
SmallDeadline == 2
SmallAgain == 1
SmallBatch == Batch - 1
Ids == Honest \cup Silent \cup Boasters
VARIABLES up,      \* connected: id -> [td, h]
          ban, h, b, net, hs, bs,
          hq,      \* headers asked for: [p, age, rt, k, fresh], p = 0: of nobody
          got,     \* blocks that came before their turn
          bq       \* blocks asked for: height -> [p, age, rt, fresh]   (fresh: the peer has not answered yet)
vars == <<up, ban, h, b, net, hs, bs, hq, got, bq>>
Claim(p) == IF p \in Boasters THEN [td |-> 2 * Top, h |-> 2 * Top] ELSE [td |-> Top, h |-> Top]
Nobody == [p |-> 0, age |-> 0, rt |-> FALSE, k |-> 0, fresh |-> FALSE]
Init == up = <<>> /\ ban = {} /\ h = 0 /\ b = 0 /\ net = 0 /\ hs = FALSE /\ bs = FALSE /\ hq = Nobody /\ got = {} /\ bq = <<>>
Join(p) == p \notin DOMAIN up \cup ban /\ up' = [q \in DOMAIN up \cup {p} |-> IF q = p THEN Claim(p) ELSE up[q]] /\ UNCHANGED <<ban, h, b, net, hs, bs, hq, got, bq>>
Without(u, p) == [q \in DOMAIN u \ {p} |-> u[q]]
Due(r, len) == r.age >= len
N == NetHeight(up, net)
Gone(p) == p \notin DOMAIN up
\* one round of the node
AskHeaders(p, rt) == hq' = [p |-> p, age |-> 0, rt |-> rt, k |-> h, fresh |-> TRUE]
Best == CHOOSE p \in Highest(up) : TRUE
Headers == IF hq.p = 0 THEN AskHeaders(Best, hq.rt) /\ UNCHANGED <<up, ban>>
    ELSE IF h >= hq.k + FullBatch THEN AskHeaders(IF Gone(hq.p) THEN Best ELSE hq.p, FALSE) /\ UNCHANGED <<up, ban>>
    ELSE IF Gone(hq.p) THEN AskHeaders(Best, hq.rt) /\ UNCHANGED <<up, ban>>
    ELSE IF ~Due(hq, Deadline) THEN UNCHANGED <<up, ban, hq>>
    ELSE IF hq.rt THEN ban' = ban \cup {hq.p} /\ up' = Without(up, hq.p) /\ hq' = Nobody
    ELSE AskHeaders(hq.p, TRUE) /\ UNCHANGED <<up, ban>>
Needed == Lowest((b + 1 .. h) \ got, Window)
Held(i) == i \in DOMAIN bq
LenOf(r) == IF r.rt THEN Again ELSE Deadline
Expired == {i \in Needed : Held(i) /\ Due(bq[i], LenOf(bq[i]))}
Retry == {i \in Expired : ~bq[i].rt /\ ~Gone(bq[i].p)}
Give == {i \in Expired : bq[i].rt \/ Gone(bq[i].p)}
Blocks == \E to \in [{i \in Needed : ~Held(i)} \cup Give -> Most(up)] :
    /\ bq' = [i \in {i \in DOMAIN bq : i > b} \cup DOMAIN to |-> IF i \in DOMAIN to THEN [p |-> to[i], age |-> 0, rt |-> FALSE, fresh |-> TRUE]
                                          ELSE IF i \in Retry THEN [bq[i] EXCEPT !.age = 0, !.rt = TRUE, !.fresh = TRUE] ELSE bq[i]]
    /\ \E out \in {{bq[i].p : i \in Give} \cap DOMAIN up} : ban' = ban \cup out /\ up' = [p \in DOMAIN up \ out |-> up[p]]
Round == /\ DOMAIN up # {} /\ net' = N /\ UNCHANGED <<h, b, got>>
         /\ IF HeadersBehind(N, h, hs) THEN Headers /\ UNCHANGED <<hs, bs, bq>>
            ELSE /\ hs' = TRUE /\ hq' = Nobody
                 /\ IF BlocksBehind(N, b, bs) THEN Blocks /\ UNCHANGED bs ELSE bs' = TRUE /\ UNCHANGED <<up, ban, bq>>
\* what the honest peers do, and time
Min2(x, y) == IF x < y THEN x ELSE y
Open(r) == r.p \in Honest \cap DOMAIN up /\ r.fresh
AnswerHeaders == Open(hq) /\ hq' = [hq EXCEPT !.fresh = FALSE] /\ h' = Min2(Top, IF h > hq.k + Batch THEN h ELSE hq.k + Batch) /\ UNCHANGED <<up, ban, b, net, hs, bs, got, bq>>
RECURSIVE Row(_, _)
Row(i, s) == IF i + 1 \in s THEN Row(i + 1, s) ELSE i
AnswerBlock(i) == /\ i \in DOMAIN bq /\ Open(bq[i])
                  /\ \E s \in {got \cup {i}} : b' = Row(b, s) /\ got' = {j \in s : j > Row(b, s)}
                  /\ bq' = [j \in DOMAIN bq \ {i} |-> bq[j]] /\ UNCHANGED <<up, ban, h, net, hs, bs, hq>>
Waits == (hq.p # 0 /\ hq.age < Deadline) \/ \E i \in DOMAIN bq : bq[i].age < LenOf(bq[i])
Tick == /\ Waits
        /\ ~(Open(hq) /\ hq.age + 1 >= Deadline) /\ \A i \in DOMAIN bq : ~(Open(bq[i]) /\ bq[i].age + 1 >= LenOf(bq[i]))
        /\ hq' = IF hq.p = 0 \/ hq.age >= Deadline THEN hq ELSE [hq EXCEPT !.age = @ + 1]
        /\ bq' = [i \in DOMAIN bq |-> IF bq[i].age >= LenOf(bq[i]) THEN bq[i] ELSE [bq[i] EXCEPT !.age = @ + 1]]
        /\ UNCHANGED <<up, ban, h, b, net, hs, bs, got>>
Next == (\E p \in Ids : Join(p)) \/ Round \/ AnswerHeaders \/ (\E i \in 1 .. Top : AnswerBlock(i)) \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Round) /\ WF_vars(AnswerHeaders) /\ WF_vars(Tick) /\ WF_vars(\E i \in 1 .. Top : AnswerBlock(i)) /\ \A p \in Ids : WF_vars(Join(p))
HonestKept == Boasters = {} => ban \cap Honest = {}
CatchesUp == <>[](h = Top /\ b = Top)
Truth == h <= Top /\ b <= h
=============================================================================
