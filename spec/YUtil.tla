------------------------------- MODULE YUtil -------------------------------
(* Small library: sequences, orders, bags.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Has(r, f) == f \in DOMAIN r

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* lexicographic order on sequences of integers
LexLess(a, b) ==
  \/ \E i \in 1..MinI(Len(a), Len(b)) :
        /\ a[i] < b[i]
        /\ \A j \in 1..(i-1) : a[j] = b[j]
  \/ /\ Len(a) < Len(b)
     /\ \A j \in 1..Len(a) : a[j] = b[j]

\* b # a is a permutation-insensitive comparison of two sequences
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in Range(a) : Cardinality({i \in 1..Len(a) : a[i] = x})
                           = Cardinality({i \in 1..Len(b) : b[i] = x})

NoDup(s) == Cardinality(Range(s)) = Len(s)

Increasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE JoinStr(_)
JoinStr(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o JoinStr(Tail(ss))

MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

\* sub-sequence of indexes (in order) whose element satisfies Test
SelectIdx(s, Test(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : Test(s[i]))
=============================================================================
