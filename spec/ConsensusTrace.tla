--------------------------- MODULE ConsensusTrace ---------------------------
EXTENDS Consensus, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Ok(what, c) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Height == /\ Ok("version", E.version = Version(E.env, E.h)) /\ Ok("horizon", E.horizon = Horizon(E.h)) /\ Ok("maturity", E.maxcb = MaxCoinbase(E.env, E.h))
          /\ Ok("ratio", E.ratio = SecondaryRatio(E.h)) /\ Ok("graph weight", \A i \in DOMAIN E.gw : E.gw[i][2] = GraphWeight(E.h, E.gw[i][1]))
Weights == /\ Ok("weight before header version 5", E.v4 = WeightV4(E.i, E.o, E.k)) /\ Ok("weight", E.v5 = WeightV5(E.i, E.o, E.k))
           /\ Ok("fee", E.fee = WMul(E.base, WInt(WeightV5(E.i, E.o, E.k))))
Header == \E n \in {Prescribed(E.env, E.h, E.ver, E.prev)} :
    /\ Ok("difficulty", E.ndiff = n.diff) /\ Ok("scaling", E.nscal = n.scal) /\ Ok("header", E.valid = ValidHeader(E.env, E, n))
Reward == Ok("reward", E.reward = <<0, 0, 600>>)
(* Sequences are decoded by number, so an empty one may come as a function over the empty set. *)
Step == CASE E.e = "Height" -> Height [] E.e = "Weights" -> Weights [] E.e = "Header" -> Header [] E.e = "Reward" -> Reward
Init == l = 1
Step1 == l <= Len(Log) /\ Step /\ l' = l + 1
TSpec == Init /\ [][Step1]_l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN TRUE ELSE PrintT(<<"stopped after", TLCGet("stats").diameter - 1, "of", Len(Log)>>) /\ FALSE
=============================================================================
