------------------------------- MODULE YAgree ------------------------------
(* Agreement of readings.                                                   *)
EXTENDS YRules

Cases == <<"nomn", "gent", "datv", "accs", "ablt", "loct", "voct">>

Male(g) == "masc" \in g
Female(g) == "femn" \in g
Neutral(g) == "neut" \in g
Common(g) == "Ms-f" \in g \/ "ms-f" \in g    \* may be used as male or as female
General(g) == "GNdr" \in g                   \* agrees with any gender
Plural(g) == "plur" \in g

GenderOk(a, b) ==
  \/ Plural(a) /\ Plural(b)
  \/ Male(a) /\ Male(b)
  \/ Female(a) /\ Female(b)
  \/ Neutral(a) /\ Neutral(b)
  \/ Common(a) /\ (Male(b) \/ Female(b))
  \/ Common(b) /\ (Male(a) \/ Female(a))
  \/ General(a) \/ General(b)

NumberOk(a, b) ==
  \/ "sing" \in a /\ "sing" \in b
  \/ "plur" \in a /\ "plur" \in b
  \/ "Sgtm" \in a /\ "sing" \in b
  \/ "Sgtm" \in b /\ "sing" \in a
  \/ "Pltm" \in a /\ "plur" \in b
  \/ "Pltm" \in b /\ "plur" \in a

CaseOk(a, b) ==
  \/ a \cap Range(Cases) = b \cap Range(Cases)
  \/ "Fixd" \in a \/ "Fixd" \in b

RECURSIVE Agree(_, _, _)
Agree(R, a, b) ==
  CASE R.t = "gender" -> GenderOk(a, b)
    [] R.t = "number" -> NumberOk(a, b)
    [] R.t = "case"   -> CaseOk(a, b)
    [] R.t = "gnc"    -> GenderOk(a, b) /\ NumberOk(a, b) /\ CaseOk(a, b)
    [] R.t = "and"    -> \A k \in 1..Len(R.rs) : Agree(R.rs[k], a, b)
    [] R.t = "or"     -> \E k \in 1..Len(R.rs) : Agree(R.rs[k], a, b)
    [] R.t = "not"    -> ~Agree(R.rs[1], a, b)

----------------------------------------------------------------------------
(* Leaves, empty parts and main words of a derivation tree.                 *)
RECURSIVE Leaves(_)
Leaves(tr) == IF tr.n = 0 THEN <<tr>> ELSE Concat([k \in 1..Len(tr.ch) |-> Leaves(tr.ch[k])])

RECURSIVE Covers(_)
Covers(tr) == tr.n = 0 \/ \E k \in 1..Len(tr.ch) : Covers(tr.ch[k])

RECURSIVE MainPos(_)
MainPos(tr) ==
  IF tr.n = 0 THEN tr.pos
  ELSE IF tr.main <= Len(tr.ch) /\ Covers(tr.ch[tr.main]) THEN MainPos(tr.ch[tr.main])
  ELSE MainPos(tr.ch[CHOOSE k \in 1..Len(tr.ch) : Covers(tr.ch[k]) /\ \A l \in 1..(k-1) : ~Covers(tr.ch[l])])

\* occurrences of relations in the tree: <<relation, position of the main word>>
RECURSIVE Related(_, _)
Related(N, tr) ==
  IF tr.n = 0 \/ ~Covers(tr) THEN <<>>
  ELSE (IF tr.n > 0 /\ N[tr.n].k = "rel" THEN << <<N[tr.n].rid, MainPos(tr)>> >> ELSE <<>>)
       \o Concat([k \in 1..Len(tr.ch) |-> Related(N, tr.ch[k])])

\* pairs of occurrences that must agree: {<<relation, position, position>>}
Edges(occ) == { <<occ[xy[1]][1], occ[xy[1]][2], occ[xy[2]][2]>> :
                xy \in { xy \in (1..Len(occ)) \X (1..Len(occ)) :
                         occ[xy[1]][1] = occ[xy[2]][1] /\ occ[xy[1]][2] # occ[xy[2]][2] } }
\* one word represents two phrases under one relation (left open)
Repeated(occ) == ~NoDup(occ)

\* readings of position p supported by every word related to it
Supported(E, rels, T, K, p) ==
  { f \in K[p] : \A e \in E :
      (e[2] = p => \E g \in K[e[3]] : Agree(rels[e[1]], Gr(T[p].fs[f]), Gr(T[e[3]].fs[g]))) }

\* the largest mutually supported sets of readings
RECURSIVE Closure(_, _, _, _)
Closure(E, rels, T, K) ==
  LET K2 == [p \in DOMAIN K |-> Supported(E, rels, T, K, p)]
  IN IF K2 = K THEN K ELSE Closure(E, rels, T, K2)

\* verdict on a derivation tree: accepted, and the readings kept per position
Judge(N, rels, T, tr) ==
  LET lv == Leaves(tr)
      occ == Related(N, tr)
      ps == { occ[x][2] : x \in 1..Len(occ) }
      kept0 == [p \in { lv[k].pos : k \in 1..Len(lv) } |->
                  LET l == lv[CHOOSE k \in 1..Len(lv) : lv[k].pos = p] IN Range(l.fs)]
      K == IF occ = <<>> THEN kept0 ELSE Closure(Edges(occ), rels, T, kept0)
  IN [ok |-> \A p \in ps : K[p] # {}, kept |-> K, rel |-> ps, occ |-> occ]
=============================================================================
