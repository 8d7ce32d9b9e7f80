------------------------------ MODULE PredTrace -----------------------------
(* Words accepted by a predicate used in a parser of the implementation.    *)
(* [id, p predicate, ctx context of the parser, T tokens of the text,       *)
(*  err error on creation ("" none), acc positions accepted, perr error on  *)
(*  parsing]                                                                *)
EXTENDS YWord, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)
\* contexts and texts are shared by many observations
Shared == ndJsonDeserialize(IOEnv.YSHARED)
VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Verdict(c) ==
  LET S == Shared[c.s] IN
  IF Unknown(c.p, S.ctx) THEN IF c.err # "" THEN <<>> ELSE <<"unknown value is not reported">>
  ELSE IF c.err # "" \/ c.perr # "" THEN <<"error">>
  ELSE IF Range(c.acc) = { k \in 1..Len(S.T) : HoldsW(c.p, S.T[k], S.ctx) } THEN <<>>
  ELSE <<"accepted">>
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), Len(Obs[id].acc), Len(Shared[Obs[id].s].T), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
