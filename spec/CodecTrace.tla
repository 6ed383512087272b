------------------------------ MODULE CodecTrace ------------------------------
(* Values encoded and bytes decoded by the node, held against the formats. *)
EXTENDS Codec, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l]
Claim(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", what, "line", l>>) /\ FALSE
Message(t) == t \in DOMAIN TypeNo
(* A value v written by version ver, and read again. *)
Enc == /\ E.e = "Enc"
       /\ Claim("encoding of a " \o E.t, E.bytes = Whole(E.t, E.v, E.ver))
       /\ Claim("a " \o E.t \o " comes back changed", E.again = E.v)
       /\ Claim("frame of a " \o E.t, Message(E.t) => E.frame = Frame(E.magic, E.t, Len(E.bytes)))
(* Bytes given to the decoder of a type. *)
Dec == /\ E.e = "Dec"
       /\ LET r == Parse(E.t, E.in, 1, E.ver, 1) IN
          /\ Claim("accepts or refuses a " \o E.t, E.r = r.ok)
          /\ r.ok => /\ Claim("bytes read for a " \o E.t, E.used = r.i - 1)
                     /\ Claim("value read for a " \o E.t, SameValue(E.t, E.v, r.o))
       /\ Claim("room taken for a " \o E.t, E.big <= Room(Len(E.in)))
(* The hash of a value is the hash of these bytes. *)
Hsh == E.e = "Hash" /\ Claim("hash of a " \o E.t, E.pre = Hashed(E.t, E.v) /\ E.same)
Frm == E.e = "Frame" /\ Claim("frame", E.r = FrameOK(E.magic, E.in) /\ (E.r => E.v = E.in))
(* Two readings of one value, and bytes that are no value. *)
Two == E.e = "Same" /\ Claim("a " \o E.t \o " comes back changed", E.a = E.b)
Ref == E.e = "Bad" /\ Claim("accepts a damaged " \o E.t, ~E.r) /\ Claim("room taken for a " \o E.t, E.big <= Room(E.size))
Step == Enc \/ Dec \/ Hsh \/ Frm \/ Two \/ Ref
Init == l = 1
Next == l <= Len(Log) /\ Step /\ l' = l + 1
TSpec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
===============================================================================
