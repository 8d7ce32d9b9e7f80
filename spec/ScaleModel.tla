----------------------------- MODULE ScaleModel ----------------------------
(* The closed forms of YScale against the meaning of rules (YParse).        *)
EXTENDS YScale
CONSTANTS MaxN, MaxB
VARIABLES s, n
Init == /\ s \in { [sh |-> x, b |-> b] : x \in Shapes, b \in 2..MaxB }
        /\ s.sh \in Bounded_ \/ s.b = 2
        /\ n = 0
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, n>>

FsOf(w) == LET k == { k \in 1..Len(Lex) : Lex[k].w = w } IN IF k = {} THEN <<>> ELSE Lex[Min(k)].fs
Nines == { Times_("9", b) : b \in 1..MaxB }
IsNumber(w) == w \in Nines \cup { Times_("0", b - 1) \o "5" : b \in 1..MaxB }
Tok(w, k) == [v |-> w, low |-> w, ty |-> IF IsNumber(w) THEN "INT" ELSE IF FsOf(w) = <<>> THEN "LATIN" ELSE "RU", st |-> 100 * k, en |-> 100 * k + 1,
              m |-> FsOf(w) # <<>>, fs |-> FsOf(w), tg |-> "", n |-> 1,
              i |-> IF ~IsNumber(w) THEN 0 - 1 ELSE IF w \in Nines THEN 10^(CHOOSE b \in 1..MaxB : w = Times_("9", b)) - 1 ELSE 5]
Case_ == [chk |-> <<"fact">>, T |-> [k \in 1..n |-> Tok(WordAt(s, n, k), k)], N |-> Shape_(s), root |-> Root(s), rels |-> Rels, CL |-> CLs, nf |-> ("a" :> <<"a">>)]
E == Expect(Case_)
RECURSIVE Names_(_, _)
Names_(N, tr) == (IF tr.n > 0 /\ N[tr.n].k = "named" THEN <<N[tr.n].name>> ELSE <<>>) \o Concat([k \in 1..Len(tr.ch) |-> Names_(N, tr.ch[k])])
FactStr(vs) == "F(a=None,c=[" \o Sep([k \in 1..Len(vs) |-> "'" \o vs[k] \o "'"], ",") \o "])"

Forms == LET e == TLCEval(E) IN
  /\ e.acc = { r \in (0..n) \X (0..n) : r[1] < r[2] /\ Acc(s, n, r[1], r[2]) }
  /\ Resolve(e.acc) = Cover(s, n)
  /\ \A r \in e.acc :
       LET o == e.outs[r] IN
       /\ s.sh \notin Ambiguous_ \/ s.sh = "alts" => Len(o) = Ders(s, n, r[1], r[2])
       /\ Names_(Case_.N, o[1].tr) = NamesOf(s, n, r[1], r[2])
       /\ \A k \in (r[1]+1)..r[2] : o[1].kept[k] = KeptOf(s, n, r[1], r[2], k)
       /\ s.sh \in {"facts", "nested"} => o[1].fact.e = "" /\ o[1].fact.fact = FactStr(ValuesOf(s, n, r[1], r[2]))
=============================================================================
