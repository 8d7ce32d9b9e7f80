------------------------------- MODULE YPred -------------------------------
(* Tokens, morphological readings and the predicates on tokens.            *)
(*                                                                          *)
(* token   [v text, low lower-cased text, ty type, st, en coordinates,      *)
(*          m has morphology, fs readings, tg tag ("" if none), n length,   *)
(*          i value of an integer token (-1 otherwise)]                     *)
(* reading [nf normal form, g grammemes (sequence of strings),              *)
(*          ok inflection is possible]                                      *)
(*                                                                          *)
(* nf : function from a word to the set (sequence) of its normal forms      *)
EXTENDS YUtil

Gr(f) == Range(f.g)

Single(f) == "sing" \in Gr(f) \/ "Sgtm" \in Gr(f)

\* predicates that narrow the readings of the token they are satisfied by
Narrowing(p) == p.p \in {"gram", "single"}

ReadingOk(p, f) == CASE p.p = "gram" -> p.v \in Gr(f)
                     [] p.p = "single" -> Single(f)

NormalForms(p, nf) == UNION { Range(nf[w]) : w \in Range(p.vs) }

RECURSIVE Holds(_, _, _)
Holds(p, t, nf) ==
  CASE p.p = "true"   -> TRUE
    [] p.p = "eq"     -> t.v = p.v
    [] p.p = "cl"     -> t.low = p.v              \* p.v is lower-cased already
    [] p.p = "in"     -> t.v \in Range(p.vs)
    [] p.p = "incl"   -> t.low \in Range(p.vs)
    [] p.p = "len"    -> t.n = p.n
    [] p.p = "gte"    -> t.ty = "INT" /\ t.i >= p.n
    [] p.p = "lte"    -> t.ty = "INT" /\ t.i <= p.n
    [] p.p = "type"   -> t.ty = p.v
    [] p.p = "tag"    -> t.tg = p.v
    [] p.p = "gram"   -> t.m /\ \E k \in 1..Len(t.fs) : ReadingOk(p, t.fs[k])
    [] p.p = "single" -> t.m /\ \E k \in 1..Len(t.fs) : ReadingOk(p, t.fs[k])
    [] p.p = "dict"   -> IF t.m THEN \E k \in 1..Len(t.fs) : t.fs[k].nf \in NormalForms(p, nf)
                                ELSE t.low \in NormalForms(p, nf)
    [] p.p = "fun"    -> (p.ts = <<>> \/ t.ty \in Range(p.ts)) /\ t.v \in Range(p.vs)
    [] p.p = "and"    -> \A k \in 1..Len(p.ps) : Holds(p.ps[k], t, nf)
    [] p.p = "or"     -> \E k \in 1..Len(p.ps) : Holds(p.ps[k], t, nf)
    [] p.p = "not"    -> ~Holds(p.ps[1], t, nf)

\* indexes of readings left after the predicate is satisfied
Narrow(p, t) ==
  IF ~t.m THEN <<>>
  ELSE IF Narrowing(p) THEN SelectIdx(t.fs, LAMBDA f : ReadingOk(p, f))
  ELSE [k \in 1..Len(t.fs) |-> k]
=============================================================================
