------------------------------ MODULE Conform ------------------------------
(* Observations of the implementation, judged one by one.                   *)
EXTENDS YParse, YTag, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.YCASES)

\* the tokens as the tagger of the parser leaves them
Case(c) == IF Has(c, "taggers") THEN [c EXCEPT !.T = TLCEval(Tagged(c.taggers, c.T))] ELSE c

VARIABLES id, pc, res

Init == /\ id \in 1..Len(Obs)
        /\ pc = "observed"
        /\ res = [bad |-> <<>>, runs |-> 0, ders |-> 0, exact |-> TRUE]

Judged == /\ pc = "observed"
          /\ pc' = "judged"
          /\ res' = Verdicts(Case(Obs[id]))
          /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, res'.bad, res'.runs, res'.ders, res'.exact>>)

Next == Judged
Spec == Init /\ [][Next]_<<id, pc, res>>
=============================================================================
