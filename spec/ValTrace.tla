------------------------------ MODULE ValTrace ------------------------------
(* Values: equality, inequality, hashes, order of spans, unpacking.         *)
(* value [k kind, s text of a simple value, ps declared parts in order]     *)
(* obs [vs, eq, ne: matrices; hs: number of the hash or 0 when there is     *)
(*      none; un: unpacked parts; lt: matrix (FALSE unless the left is a    *)
(*      span and the right a span or a pair)]                               *)
EXTENDS YUtil, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)

RECURSIVE Equal(_, _)
Equal(a, b) ==
  \/ {a.k, b.k} = {"Span", "pair"} /\ a.ps = b.ps
  \/ /\ a.k = b.k /\ a.s = b.s /\ Len(a.ps) = Len(b.ps)
     /\ \A i \in 1..Len(a.ps) : Equal(a.ps[i], b.ps[i])

\* has every part a hash?
RECURSIVE Hashed(_)
Hashed(a) == a.k \notin {"list", "set", "ForwardRule"} /\ \A i \in 1..Len(a.ps) : Hashed(a.ps[i])
Simple(a) == a.k \in {"str", "int", "bool", "none", "list", "set", "pair", "fun"}

Ranges(c) == (1..Len(c.vs)) \X (1..Len(c.vs))
Numbers(a) == <<a.ps[1].i, a.ps[2].i>>
Before(a, b) == /\ a.k = "Span" /\ b.k \in {"Span", "pair"}
                /\ LexLess(Numbers(a), Numbers(b))

Verdict(c) ==
  IF c.err # "" THEN <<"error">> ELSE
  SelectSeq(<<"equality", "inequality", "hash of equal values", "no hash", "order of spans", "unpacking">>,
    LAMBDA n :
      CASE n = "equality"   -> \E x \in Ranges(c) : c.eq[x[1]][x[2]] # Equal(c.vs[x[1]], c.vs[x[2]])
        [] n = "inequality" -> \E x \in Ranges(c) : c.ne[x[1]][x[2]] = c.eq[x[1]][x[2]]
        [] n = "hash of equal values" ->
             \E x \in Ranges(c) : Equal(c.vs[x[1]], c.vs[x[2]]) /\ c.hs[x[1]] # 0 /\ c.hs[x[2]] # 0 /\ c.hs[x[1]] # c.hs[x[2]]
        [] n = "no hash"    -> \E i \in 1..Len(c.vs) : Hashed(c.vs[i]) /\ c.hs[i] = 0
        [] n = "order of spans" -> \E x \in Ranges(c) : c.lt[x[1]][x[2]] # Before(c.vs[x[1]], c.vs[x[2]])
        [] n = "unpacking"  -> \E i \in 1..Len(c.vs) : ~Simple(c.vs[i]) /\ c.vs[i].k # "ForwardRule" /\
                                 (Len(c.un[i]) # Len(c.vs[i].ps) \/
                                  \E k \in 1..Len(c.un[i]) : ~Equal(c.un[i][k], c.vs[i].ps[k])))

VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]),
                      IF Obs[id].err = "" THEN Cardinality({ x \in Ranges(Obs[id]) : x[1] < x[2] /\ Equal(Obs[id].vs[x[1]], Obs[id].vs[x[2]]) }) ELSE 0,
                      Len(Obs[id].vs), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
