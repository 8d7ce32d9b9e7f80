------------------------------- MODULE YQuant ------------------------------
(* What quantifiers mean, in terms of the number of occurrences.            *)
EXTENDS YRules

Upto(n, S) == { x \in S : x <= n }
SumOf(n, A, B) == { a + b : a \in A, b \in B } \cap (0..n)
RECURSIVE Sums(_, _, _)
\* totals (up to n) of exactly k occurrences with counts in S
Sums(n, S, k) == IF k = 0 THEN {0} ELSE SumOf(n, S, Sums(n, S, k - 1))
RECURSIVE Grow(_, _, _)
\* totals of any further number of occurrences
Grow(n, S, R) == LET R2 == R \cup SumOf(n, S, R) IN IF R2 = R THEN R ELSE Grow(n, S, R2)

\* numbers of occurrences (up to n) accepted by quantifiers qs, outermost first
RECURSIVE Counts(_, _)
Counts(n, qs) ==
  IF qs = <<>> THEN Upto(n, {1})
  ELSE LET S == Counts(n, Tail(qs))  q == qs[1] IN
       CASE q.k = "opt"  -> {0} \cup S
         [] q.k = "rep"  -> Grow(n, S, S)
         [] q.k = "ropt" -> Grow(n, S, {0} \cup S)
         [] q.k = "bnd"  -> IF q.hi = 0 THEN Grow(n, S, Sums(n, S, q.lo))
                            ELSE UNION { Sums(n, S, k) : k \in q.lo..q.hi }

\* how many occurrences a single quantifier takes when n follow and any number may be left over
Takes(q, n) ==
  LET F == Counts(n, <<q>>) IN
  IF F = {} THEN -1
  ELSE IF q.k = "opt" THEN (IF q.rev THEN Max(F) ELSE Min(F))
  ELSE (IF q.rev THEN Min(F) ELSE Max(F))
=============================================================================
