------------------------------ MODULE BuildTrace ---------------------------
(* Constructions made with the real code.  obs [..., at: id of the call     *)
(* that failed or 0, err: kind of the error, "" when there was none]        *)
EXTENDS YBuild, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)

NotAnAnswer == {"RecursionError", "MemoryError", "timeout", "SystemError"}
Verdict(c) ==
  IF c.err \in NotAnAnswer THEN <<"error without an answer">>
  ELSE IF UnclearIn(c) THEN <<>>
  ELSE LET ms == MistakesIn(c) IN
  IF ms # {} THEN IF c.at = 0 THEN <<"mistake accepted">>
                  ELSE IF c.at < Min(ms) THEN <<"valid call rejected">> ELSE <<>>
  ELSE IF ParserUnclear(c) THEN IF c.at # 0 /\ c.at # c.id_ THEN <<"valid call rejected">> ELSE <<>>
  ELSE IF ParserMistake(c) THEN IF c.at = 0 THEN <<"mistake accepted by the parser">>
                                ELSE IF c.at # c.id_ THEN <<"valid call rejected">> ELSE <<>>
  ELSE IF c.at # 0 THEN <<"valid construction rejected">> ELSE <<>>

VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), IF UnclearIn(Obs[id]) THEN 0 ELSE 1, Cardinality(Everything(Obs[id])), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
