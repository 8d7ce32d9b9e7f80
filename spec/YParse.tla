------------------------------- MODULE YParse ------------------------------
(* What a parser reports for a text, and the judgement of an observation.   *)
(*                                                                          *)
(* case  [id, chk, T, N, root, nf, rels, CL, obs]                           *)
(* obs   [err, ex, fa, fi, ma]: error if any, matches of extract, findall,   *)
(*       find, match                                                        *)
(* match [ps positions of its tokens, st, en, toks, mk, e, fact, json, sp]  *)
EXTENDS YFact, YSpans

\* shape of a derivation as far as named parts tell
RECURSIVE Shape(_, _)
Shape(N, tr) ==
  IF tr.n = 0 THEN <<"t" \o ToString(tr.pos)>>
  ELSE LET below == Concat([k \in 1..Len(tr.ch) |-> IF Covers(tr.ch[k]) THEN Shape(N, tr.ch[k]) ELSE <<>>]) IN
       IF tr.n > 0 /\ N[tr.n].k = "named" THEN <<N[tr.n].name \o "(" \o Sep(below, " ") \o ")">> ELSE below
ShapeStr(N, tr) == Sep(Shape(N, tr), " ")

Positions(tr) == LET lv == Leaves(tr) IN [k \in 1..Len(lv) |-> lv[k].pos]

\* everything that is expected of one accepted derivation
Outcome(c, d) ==
  LET j == Judge(c.N, c.rels, c.T, d.tr)
      lead == [p \in DOMAIN j.kept |-> IF j.kept[p] = {} THEN 0 ELSE Min(j.kept[p])]
  IN [ok |-> j.ok, kept |-> j.kept, occ |-> j.occ, rel |-> j.rel,
      ps |-> Positions(d.tr), mk |-> ShapeStr(c.N, d.tr), tr |-> d.tr,
      fact |-> IF j.ok /\ "fact" \in Range(c.chk)
               THEN FactOf([T |-> c.T, lead |-> lead, CL |-> c.CL, N |-> c.N], d.tr)
               ELSE [e |-> "skip"]]

\* expectation for a text: run |-> outcomes of accepted derivations, best first
Expect(c) ==
  LET memo == TLCEval(AllDerivations(TLCEval(Prepared(c.N, c.T, c.nf))))
      runs == { r \in (0..Len(c.T)) \X (0..Len(c.T)) : r[1] < r[2] }
      outs == TLCEval([r \in { r \in runs : DerivationsOf(memo, c.root, r[1], r[2]) # {} } |->
                LET ders == Ranked(DerivationsOf(memo, c.root, r[1], r[2])) IN
                SelectSeq(TLCEval([k \in 1..Len(ders) |-> Outcome(c, ders[k])]), LAMBDA o : o.ok)])
      murky == TLCEval([r \in DOMAIN outs |->
                \E d \in DerivationsOf(memo, c.root, r[1], r[2]) : Repeated(Related(c.N, d.tr))])
  IN [memo |-> memo, outs |-> outs, murky |-> murky, acc |-> { r \in DOMAIN outs : outs[r] # <<>> }]

(* Can a node derive itself over the same tokens?  Then the number of       *)
(* derivations is infinite and only runs (not counts) are compared.         *)
Nullable(memo, n) == DerivationsOf(memo, n, 0, 0) # {}
SameRun(N, memo, n) ==
  LET nd == N[n] IN
  CASE nd.k = "rule" ->
         { nd.items[k].r : k \in { k \in 1..Len(nd.items) : Has(nd.items[k], "r") /\
             \A l \in 1..Len(nd.items) : l = k \/ (Has(nd.items[l], "r") /\ Nullable(memo, nd.items[l].r)) } }
    [] nd.k = "or" -> Range(nd.rs)
    [] nd.k \in {"empty", "pipe"} -> {}
    [] nd.k = "bnd" -> IF nd.lo = 1 \/ Nullable(memo, nd.r) \/ N[nd.r].k = "rep"   \* simplified to rep
                       THEN {nd.r} ELSE {}
    [] OTHER -> {nd.r}
RECURSIVE Reach(_, _, _)
Reach(N, memo, S) == LET S2 == S \cup UNION { SameRun(N, memo, n) : n \in S }
                     IN IF S2 = S THEN S ELSE Reach(N, memo, S2)
Cyclic(N, memo) == \E n \in 1..Len(N) : n \in Reach(N, memo, SameRun(N, memo, n))

----------------------------------------------------------------------------
(* judgement; each clause is TRUE or FALSE                                  *)
RunOf(m) == <<m.ps[1] - 1, m.ps[Len(m.ps)]>>
Contiguous(m) == Len(m.ps) > 0 /\ m.ps[1] > 0 /\ \A k \in 1..Len(m.ps) : m.ps[k] = m.ps[1] + k - 1

TokenOk(t, o) == o.v = t.v /\ o.st = t.st /\ o.en = t.en /\ o.ty = t.ty /\ o.tg = t.tg /\ o.m = t.m
CoordsOk(c, m) ==
  /\ Contiguous(m)
  /\ m.ps[Len(m.ps)] <= Len(c.T)
  /\ Len(m.toks) = Len(m.ps)
  /\ \A k \in 1..Len(m.ps) : TokenOk(c.T[m.ps[k]], m.toks[k])
  /\ m.st = c.T[m.ps[1]].st /\ m.en = c.T[m.ps[Len(m.ps)]].en

\* positions and readings are ones of the text
Known(c, m) ==
  /\ m.ps[Len(m.ps)] <= Len(c.T)
  /\ Len(m.toks) = Len(m.ps)
  /\ \A k \in 1..Len(m.ps) :
       /\ \A f \in Range(m.toks[k].fs) : f \in 1..Len(c.T[m.ps[k]].fs)
       /\ m.toks[k].fs = <<>> => c.T[m.ps[k]].fs = <<>>

\* readings reported for match m against outcome o
ReadingsOk(c, m, o) ==
  \A k \in 1..Len(m.ps) :
    LET p == m.ps[k]  fs == m.toks[k].fs IN
    /\ NoDup(fs) /\ Range(fs) = o.kept[p]
    /\ (p \notin o.rel => Increasing(fs))

\* two related words: the leading readings agree
LeadOk(c, m, o) ==
  (Len(o.occ) = 2 /\ o.occ[1][1] = o.occ[2][1] /\ o.occ[1][2] # o.occ[2][2]) =>
    LET f(p) == c.T[p].fs[m.toks[p - m.ps[1] + 1].fs[1]]
    IN Agree(c.rels[o.occ[1][1]], Gr(f(o.occ[1][2])), Gr(f(o.occ[2][2])))

\* fact of m, given the leading readings it reports
FactOk(c, m, o) ==
  LET lead == [p \in DOMAIN o.kept |-> IF m.toks[p - m.ps[1] + 1].fs = <<>> THEN 0
                                       ELSE m.toks[p - m.ps[1] + 1].fs[1]]
      F == FactOf([T |-> c.T, lead |-> lead, CL |-> c.CL, N |-> c.N], o.tr)
  IN m.e = F.e /\ (F.e = "" => m.fact = F.fact)
ViewOk(c, m, o) ==
  LET lead == [p \in DOMAIN o.kept |-> IF m.toks[p - m.ps[1] + 1].fs = <<>> THEN 0
                                       ELSE m.toks[p - m.ps[1] + 1].fs[1]]
      F == FactOf([T |-> c.T, lead |-> lead, CL |-> c.CL, N |-> c.N], o.tr)
  IN F.e = "" /\ F.r = "fact" =>
       /\ m.json = F.json
       /\ SameBag(m.sp, F.spans)
       /\ \A k \in 1..(Len(m.sp)-1) : m.sp[k][1] <= m.sp[k+1][1]

\* how an outcome / an observed match looks in comparison of multisets
KeptStr(kept, ps) == [k \in 1..Len(ps) |-> kept[ps[k]]]
LooksO(c, o, withFact) == <<o.ps, o.mk, KeptStr(o.kept, o.ps),
                            IF withFact THEN (IF o.fact.e = "" THEN o.fact.fact ELSE "!" \o o.fact.e) ELSE "">>
LooksM(c, m, withFact) == <<m.ps, m.mk, [k \in 1..Len(m.toks) |-> Range(m.toks[k].fs)],
                            IF withFact THEN (IF m.e = "" THEN m.fact ELSE "!" \o m.e) ELSE "">>

\* outcomes of all accepted derivations, run by run
AllOuts(E) == LET sorted == TLCEval(SortSpans(E.acc)) IN
              Concat([k \in 1..Len(sorted) |-> E.outs[sorted[k]]])
\* one reading is left wherever words are related: facts do not depend on the order of readings
Plain(outs) == \A k \in 1..Len(outs) : \A p \in outs[k].rel : Cardinality(outs[k].kept[p]) = 1
\* left open: one word representing two phrases under one relation
LeftOpen(E) == \E r \in DOMAIN E.outs : E.murky[r]

Failed(c) == [bad |-> <<"error">>, runs |-> 0, ders |-> 0, exact |-> TRUE]
Compare(c) ==
  LET E == TLCEval(Expect(c))
      want == Range(c.chk)
      ex == c.obs.ex   fa == c.obs.fa   fi == c.obs.fi   ma == c.obs.ma
      all == ex \o fa \o fi \o ma
      shaped == \A k \in 1..Len(all) : Contiguous(all[k]) /\ Known(c, all[k])
      full == <<0, Len(c.T)>>
      accFull == Len(c.T) > 0 /\ full \in E.acc
      sel == TLCEval(Resolve(E.acc))
      best(r) == E.outs[r][1]
      exact == ~Cyclic(c.N, E.memo)
      allOuts == TLCEval(AllOuts(E))
      withFact == "fact" \in want /\ Plain(allOuts)
      \* matches that must be the best derivation of their run
      bests == ma \o fa
      bestOk(P(_, _)) == \A k \in 1..Len(bests) :
                            RunOf(bests[k]) \in E.acc => P(bests[k], best(RunOf(bests[k])))
      open == LeftOpen(E)
      clause(n) ==
        CASE open           -> TRUE
          [] n = "shape"  -> shaped
          [] n = "coords" -> \A k \in 1..Len(all) : CoordsOk(c, all[k])
          [] n = "spans"  -> shaped /\ { RunOf(ex[k]) : k \in 1..Len(ex) } = E.acc
          [] n = "bag"    -> LET seen == [k \in 1..Len(ex) |-> LooksM(c, ex[k], withFact)]
                                 due == [k \in 1..Len(allOuts) |-> LooksO(c, allOuts[k], withFact)]
                             IN IF exact THEN SameBag(seen, due) ELSE Range(due) \subseteq Range(seen)
          [] n = "match"  -> /\ (Len(ma) = 1) = accFull
                             /\ \A k \in 1..Len(ma) : shaped => RunOf(ma[k]) = full
          [] n = "best"   -> (shaped /\ exact) => bestOk(LAMBDA m, o : m.mk = o.mk)
          [] n = "findall" -> shaped /\ [k \in 1..Len(fa) |-> RunOf(fa[k])] = sel
          [] n = "find"   -> /\ Len(fi) = MinI(1, Len(fa))
                             /\ Len(fi) = 1 => LooksM(c, fi[1], TRUE) = LooksM(c, fa[1], TRUE)
          [] n = "readings" -> (shaped /\ exact) => bestOk(LAMBDA m, o : ReadingsOk(c, m, o))
          [] n = "lead"   -> (shaped /\ exact) => bestOk(LAMBDA m, o : LeadOk(c, m, o))
          [] n = "fact"   -> (shaped /\ exact) => bestOk(LAMBDA m, o : FactOk(c, m, o))
          [] n = "view"   -> (shaped /\ exact) => bestOk(LAMBDA m, o : ViewOk(c, m, o))
          [] OTHER -> TRUE
  IN [bad |-> SelectSeq(c.chk, LAMBDA n : ~clause(n)),
      runs |-> Cardinality(E.acc), ders |-> Len(allOuts), exact |-> exact]

Verdicts(c) == IF c.obs.err # "" THEN Failed(c) ELSE Compare(c)
=============================================================================
