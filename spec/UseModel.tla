------------------------------ MODULE UseModel -----------------------------
(* One rule used several times in a row, each use under a quantifier of its *)
(* own, on a text of n words.                                               *)
(*  Fits    the text is derived iff numbers accepted by the uses sum to n   *)
(*  Shares  the preferred derivation gives to every use, from left to right,*)
(*          what it prefers among the numbers that leave the rest derivable *)
EXTENDS YQuant, Json
CONSTANTS MaxUses, MaxBound, Lengths
VARIABLES uses, n
Q_(k, rev) == [k |-> k, rev |-> rev]
Quants == UNION { {Q_("opt", v), Q_("rep", v)}
                  \cup { [k |-> "bnd", lo |-> lo, hi |-> hi, rev |-> v]
                         : lo \in 1..MaxBound, hi \in 0..MaxBound }
                  : v \in BOOLEAN }
Good(q) == q.k # "bnd" \/ (q.hi = 0 /\ q.lo > 1) \/ q.hi >= q.lo
Init == uses = <<>> /\ n \in Lengths
Next == Len(uses) < MaxUses /\ UNCHANGED n /\ \E q \in { q \in Quants : Good(q) } : uses' = Append(uses, q)
Spec == Init /\ [][Next]_<<uses, n>>

RECURSIVE Able(_, _)
\* numbers of words (up to k) that uses us derive
Able(us, k) == IF us = <<>> THEN {0} ELSE SumOf(k, Counts(k, <<us[1]>>), Able(Tail(us), k))
RECURSIVE Share(_, _)
Share(us, k) ==
  IF us = <<>> THEN <<>>
  ELSE LET q == us[1]
           F == { x \in Counts(k, <<q>>) : (k - x) \in Able(Tail(us), k) }
           x == IF (q.k = "opt") = q.rev THEN Max(F) ELSE Min(F)
       IN <<x>> \o Share(Tail(us), k - x)

Base == [k |-> "rule", items |-> <<[p |-> [p |-> "eq", v |-> "a"]]>>, main |-> 0]
Nodes == <<Base>> \o [k \in 1..Len(uses) |-> uses[k] @@ [r |-> 1]]
         \o <<[k |-> "rule", items |-> [k \in 1..Len(uses) |-> [r |-> k + 1]], main |-> 0]>>
T_ == [k \in 1..n |-> [v |-> "a", low |-> "a", ty |-> "LATIN", st |-> k, en |-> k + 1, m |-> FALSE, fs |-> <<>>, tg |-> "", n |-> 1, i |-> -1]]
RECURSIVE Words(_)
Words(tr) == IF tr.n = 0 THEN 1 ELSE SumSeq([k \in 1..Len(tr.ch) |-> Words(tr.ch[k])])
Ders == LET C == Prepared(Nodes, T_, [a |-> <<"a">>]) IN Ranked(DerivationsOf(TLCEval(AllDerivations(C)), Len(Nodes), 0, n))
Fits == (uses # <<>>) => ((Ders # <<>>) = (n \in Able(uses, n)))
Shares == (uses # <<>> /\ n \in Able(uses, n)) =>
            LET tr == Ders[1].tr IN [k \in 1..Len(uses) |-> Words(tr.ch[k])] = Share(uses, n)
Emit == (Len(uses) > 1 /\ n > 0) => PrintT("HIST " \o ToJson([uses |-> uses, n |-> n]))
=============================================================================
