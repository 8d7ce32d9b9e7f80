------------------------------ MODULE RelTrace ------------------------------
(* Pairs of words (one reading each) accepted under a relation by the       *)
(* implementation.  [id, rel, ps: pairs of sequences of grammemes,          *)
(*  acc: indexes of accepted pairs, err]                                    *)
EXTENDS YAgree, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)
VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Due(c) == { k \in 1..Len(c.ps) : Agree(c.rel, Range(c.ps[k][1]), Range(c.ps[k][2])) }
Verdict(c) == IF c.err # "" THEN <<"error">>
              ELSE IF Range(c.acc) = Due(c) THEN <<>> ELSE <<"agreement of readings">>
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), Len(Obs[id].acc), Len(Obs[id].ps), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
