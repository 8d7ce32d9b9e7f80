----------------------------- MODULE QuantModel ----------------------------
(* Stacks of quantifiers are built one by one.  Invariants:                 *)
(*  Exact    simplification of stacks keeps the number of occurrences       *)
(*           (but for an explicit minimum put directly on a repetition)     *)
(*  Derived  the derivations of YRules accept exactly these numbers         *)
(*  Reversed preference does not change what is accepted                    *)
(*  First    the preferred derivation takes what the quantifier promises    *)
EXTENDS YQuant
CONSTANTS MaxDepth, MaxBound, Upto_

VARIABLE qs
Bools == {FALSE, TRUE}
Quants == { [k |-> "opt", rev |-> r] : r \in Bools }
     \cup { [k |-> "rep", rev |-> r] : r \in Bools }
     \cup { [k |-> "bnd", lo |-> b[1], hi |-> b[2], rev |-> r] :
            b \in { b \in (1..MaxBound) \X (0..MaxBound) : (b[2] = 0 /\ b[1] > 1) \/ b[2] >= b[1] }, r \in Bools }
Init == qs = <<>>
Next == Len(qs) < MaxDepth /\ \E q \in Quants : qs' = <<q>> \o qs
Spec == Init /\ [][Next]_qs

\* the simplification leaves an explicit minimum without effect here
RECURSIVE Pinned(_)
Pinned(s) == /\ Len(s) > 1
             /\ \/ s[1].k = "bnd" /\ s[1].lo > 1 /\ s[1].hi = 0 /\ s[2].k = "rep"
                \/ Pinned(Tail(s))
Exact == Pinned(qs) \/ Counts(Upto_, qs) = Counts(Upto_, Squash(qs))

Tok(i) == [v |-> "a", low |-> "a", ty |-> "LATIN", st |-> 2*i, en |-> 2*i+1, m |-> FALSE, fs |-> <<>>, tg |-> "", n |-> 1, i |-> 0 - 1]
Text(n) == [i \in 1..n |-> Tok(i)]
\* node 1 the word, node k+1 the k-th quantifier from inside, then anything, then both in a row
Nodes(s) == << [k |-> "rule", items |-> << [p |-> [p |-> "eq", v |-> "a"]] >>, main |-> 0] >>
            \o [k \in 1..Len(s) |-> s[Len(s) - k + 1] @@ [r |-> k]]
            \o << [k |-> "rep", r |-> 1, rev |-> FALSE], [k |-> "opt", r |-> Len(s) + 2, rev |-> TRUE],
                  [k |-> "rule", items |-> << [r |-> Len(s) + 1], [r |-> Len(s) + 3] >>, main |-> 0] >>
Ders(s, n) == AllDerivations(Prepared(Nodes(s), Text(n), <<>>))
Derived == LET memo == TLCEval(Ders(qs, Upto_)) IN
           \A n \in 0..Upto_ : (DerivationsOf(memo, Len(qs) + 1, 0, n) # {}) = (n \in Counts(Upto_, Squash(qs)))
Flip(s) == [k \in 1..Len(s) |-> [s[k] EXCEPT !.rev = ~@]]
Reversed == Counts(Upto_, Squash(qs)) = Counts(Upto_, Squash(Flip(qs)))
RECURSIVE Width(_)
Width(tr) == IF tr.n = 0 THEN 1 ELSE SumSeq([k \in 1..Len(tr.ch) |-> Width(tr.ch[k])])
First == Len(qs) = 1 =>
  LET memo == TLCEval(Ders(qs, Upto_)) IN
  \A n \in 1..Upto_ :
    LET ds == Ranked(DerivationsOf(memo, Len(qs) + 4, 0, n)) IN
    IF ds = <<>> THEN Takes(qs[1], n) = -1
    ELSE Width(ds[1].tr.ch[1]) = Takes(qs[1], n)
=============================================================================
