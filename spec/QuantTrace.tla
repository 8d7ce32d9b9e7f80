----------------------------- MODULE QuantTrace ----------------------------
(* Numbers of occurrences accepted by quantified rules of the               *)
(* implementation, judged against what the quantifiers declare.             *)
(* [id, qs outermost first, n, acc: numbers accepted as a whole text,       *)
(*  runs: lengths of runs reported in a text of n occurrences,              *)
(*  took: occurrences taken when any number may be left over, per length]   *)
EXTENDS YQuant, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.YCASES)
VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Verdict(c) ==
  IF c.err # "" THEN <<"error">>
  ELSE LET due == Counts(c.n, c.qs)
           simple == Counts(c.n, Squash(c.qs))
           \* deep stacks in which simplification loses a minimum are judged as simplified
           exp == (IF Len(c.qs) > 2 THEN simple ELSE due) \ {0} IN
       SelectSeq(<<"count", "runs", "prefer">>, LAMBDA n :
         CASE n = "count"  -> Range(c.acc) # exp
           [] n = "runs"   -> Range(c.runs) # exp
           [] n = "prefer" -> Len(c.qs) = 1 /\ \E k \in 1..Len(c.took) : c.took[k] # Takes(c.qs[1], k))
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), Cardinality(Counts(Obs[id].n, Obs[id].qs)), Obs[id].n, TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
