------------------------------ MODULE ListTrace -----------------------------
(* Listing of a grammar, read as a grammar, against the rule it was made of. *)
(*                                                                          *)
(* case (see YParse) with lst: lines [lhs, nm, rel, alts]; lhs = nm, or     *)
(* nm^rel under a relation; alts: sequences of [s, m]: symbol, marked main. *)
EXTENDS YLabel, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)

MarkName(c, n) == IF c.N[n].k = "named" THEN c.N[n].name ELSE FLabel(c.N[n].f)
IsMark(c, n) == c.N[n].k \in {"named", "int"}
Marks(c) == { MarkName(c, n) : n \in { n \in 1..Len(c.N) : IsMark(c, n) } }
RECURSIVE Preds(_)
Preds(N) == IF N = <<>> THEN {} ELSE
            LET nd == Head(N) IN
            (IF nd.k = "rule" THEN { nd.items[k].p : k \in { k \in 1..Len(nd.items) : Has(nd.items[k], "p") } } ELSE {})
            \cup Preds(Tail(N))
PipesOf(c) == { n \in 1..Len(c.N) : c.N[n].k = "pipe" }

Names(L) == [k \in 1..Len(L) |-> L[k].lhs]
LineOf(L, s) == CHOOSE k \in 1..Len(L) : L[k].lhs = s
IsName(L, s) == \E k \in 1..Len(L) : L[k].lhs = s
IsTerm(c, s) == \E p \in Preds(c.N) : PLabel(p) = s
PredOf(c, s) == CHOOSE p \in Preds(c.N) : PLabel(p) = s
IsPipe(c, a) == Len(a) = 1 /\ ~a[1].m /\ \E n \in PipesOf(c) : PipeAbbr(c.N[n].kind) = a[1].s
PipeOf(c, a) == CHOOSE n \in PipesOf(c) : PipeAbbr(c.N[n].kind) = a[1].s
IsE(a) == Len(a) = 1 /\ ~a[1].m /\ a[1].s = "e"

Symbols(L) == UNION { UNION { { L[k].alts[a][i].s : i \in 1..Len(L[k].alts[a]) } : a \in 1..Len(L[k].alts) } : k \in 1..Len(L) }
DefinedOnce(c, L) ==
  /\ NoDup(Names(L))
  /\ \A k \in 1..Len(L) : \A a \in 1..Len(L[k].alts) :
       LET alt == L[k].alts[a] IN
       IsE(alt) \/ IsPipe(c, alt) \/
       (Len(alt) > 0 /\ \A i \in 1..Len(alt) : IsName(L, alt[i].s) \/ IsTerm(c, alt[i].s))
\* every line but the first is used
Used(L) == \A k \in 2..Len(L) : L[k].lhs \in Symbols(L)

\* the listing as a rule set: three nodes per line, then the alternatives
AltBase(L, k) == 3 * Len(L) + SumSeq([i \in 1..(k-1) |-> Len(L[i].alts)])
MainOf(alt) == LET ms == { i \in 1..Len(alt) : alt[i].m } IN IF ms = {} THEN 0 ELSE Min(ms)
AltNode(c, L, alt) ==
  IF IsE(alt) THEN [k |-> "empty"]
  ELSE IF IsPipe(c, alt) THEN c.N[PipeOf(c, alt)]
  ELSE [k |-> "rule", main |-> MainOf(alt),
        items |-> [i \in 1..Len(alt) |-> IF IsName(L, alt[i].s) THEN [r |-> 3 * LineOf(L, alt[i].s) - 2]
                                         ELSE [p |-> PredOf(c, alt[i].s)]]]
Read(c, L) ==
  Concat([k \in 1..Len(L) |->
     << IF L[k].rel = "" THEN [k |-> "fwd", r |-> 3*k - 1] ELSE [k |-> "rel", r |-> 3*k - 1, lab |-> L[k].rel],
        IF L[k].nm \in Marks(c) THEN [k |-> "named", r |-> 3*k, name |-> L[k].nm] ELSE [k |-> "fwd", r |-> 3*k],
        [k |-> "or", rs |-> [a \in 1..Len(L[k].alts) |-> AltBase(L, k) + a]] >>])
  \o Concat([k \in 1..Len(L) |-> [a \in 1..Len(L[k].alts) |-> AltNode(c, L, L[k].alts[a])]])

\* what a derivation shows: tokens, named and interpreted parts, words under relations
RECURSIVE Shown(_, _, _)
Shown(name, N, tr) ==
  IF tr.n = 0 THEN <<"t" \o ToString(tr.pos)>>
  ELSE LET below == Concat([k \in 1..Len(tr.ch) |-> IF Covers(tr.ch[k]) THEN Shown(name, N, tr.ch[k]) ELSE <<>>]) IN
       IF tr.n > 0 /\ name[tr.n] # "" THEN <<name[tr.n] \o "(" \o Sep(below, " ") \o ")">> ELSE below
RECURSIVE RelWords(_, _)
RelWords(lab, tr) ==
  IF tr.n = 0 \/ ~Covers(tr) THEN <<>>
  ELSE (IF tr.n > 0 /\ lab[tr.n] # "" THEN << <<lab[tr.n], MainPos(tr)>> >> ELSE <<>>)
       \o Concat([k \in 1..Len(tr.ch) |-> RelWords(lab, tr.ch[k])])
Looks(name, lab, N, ders) == [k \in 1..Len(ders) |-> <<Shown(name, N, ders[k].tr), RelWords(lab, ders[k].tr)>>]

Compared(c) ==
  LET L == c.lst
      N2 == TLCEval(Read(c, L))
      m1 == TLCEval(AllDerivations(TLCEval(Prepared(c.N, c.T, c.nf))))
      m2 == TLCEval(AllDerivations(TLCEval(Prepared(N2, c.T, c.nf))))
      name1 == TLCEval([n \in 1..Len(c.N) |-> IF IsMark(c, n) THEN MarkName(c, n) ELSE ""])
      name2 == TLCEval([n \in 1..Len(N2) |-> IF N2[n].k = "named" THEN N2[n].name ELSE ""])
      lab1 == TLCEval([n \in 1..Len(c.N) |-> IF c.N[n].k = "rel" THEN RLabel(c.rels[c.N[n].rid]) ELSE ""])
      lab2 == TLCEval([n \in 1..Len(N2) |-> IF N2[n].k = "rel" THEN N2[n].lab ELSE ""])
      runs == { r \in (0..Len(c.T)) \X (0..Len(c.T)) : r[1] <= r[2] }
      d1(r) == DerivationsOf(m1, c.root, r[1], r[2])
      d2(r) == DerivationsOf(m2, 1, r[1], r[2])
      same == \A r \in runs : (d1(r) = {}) = (d2(r) = {})
      exact == ~Cyclic(c.N, m1)
      order == \A r \in { r \in runs : r[1] < r[2] } :
                 Looks(name1, lab1, c.N, Ranked(d1(r))) = Looks(name2, lab2, N2, Ranked(d2(r)))
  IN [bad |-> IF ~same THEN <<"the listing generates another language">>
              ELSE IF exact /\ ~order THEN <<"alternatives, main words or names differ in the listing">> ELSE <<>>,
      n |-> Cardinality({ r \in runs : r[1] < r[2] /\ d1(r) # {} })]
Verdict(c) ==
  IF c.err # "" THEN [bad |-> <<"error">>, n |-> 0]
  ELSE IF ~DefinedOnce(c, c.lst) THEN [bad |-> <<"a name is not defined exactly once">>, n |-> 0]
  ELSE IF ~Used(c.lst) THEN [bad |-> <<"a line of the listing is not used">>, n |-> 0]
  ELSE Compared(c)

VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ LET v == Verdict(Obs[id]) IN PrintT(<<"RES", Obs[id].id, v.bad, v.n, Len(Obs[id].lst), TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
