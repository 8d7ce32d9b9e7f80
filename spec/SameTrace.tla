------------------------------ MODULE SameTrace -----------------------------
(* One program, run in several processes (other hash seed, other memory     *)
(* layout, other order of work): everything it reports must be the same.    *)
(* [id, outs: per process, a sequence of [what, val]]                       *)
EXTENDS YUtil, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)
Parts(c) == UNION { { c.outs[k][i].what : i \in 1..Len(c.outs[k]) } : k \in 1..Len(c.outs) }
Part(o, w) == SelectSeq(o, LAMBDA x : x.what = w)
Differ(c) == { w \in Parts(c) : \E k \in 2..Len(c.outs) : Part(c.outs[k], w) # Part(c.outs[1], w) }
Verdict(c) == SetToSeq({ w \o " differs between processes" : w \in Differ(c) })

VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), Len(Obs[id].outs[1]), Len(Obs[id].outs), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
