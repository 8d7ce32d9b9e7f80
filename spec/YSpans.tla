------------------------------- MODULE YSpans ------------------------------
(* Selection of non-overlapping runs.                                       *)
EXTENDS YUtil

SpanLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
SortSpans(S) == SetToSortSeq(S, SpanLess)
Size(s) == s[2] - s[1]
Total(sel) == SumSeq([k \in 1..Len(sel) |-> Size(sel[k])])

NonOverlapping(sel) == \A k \in 1..(Len(sel)-1) : sel[k][2] <= sel[k+1][1]

\* the declarative requirement: the best cover; on ties the leftmost difference decides in
\* favour of the selection that includes the earlier (then longer) candidate
Prefer(c, a, b) ==   \* c: candidates in order; a, b: selections (sets)
  \E k \in 1..Len(c) : /\ c[k] \in a /\ c[k] \notin b
                       /\ \A l \in 1..(k-1) : (c[l] \in a) = (c[l] \in b)
Selections(S) == { X \in SUBSET S : \A s, t \in X : s = t \/ s[2] <= t[1] \/ t[2] <= s[1] }
TotalSet(X) == SumSeq(MapSeq(Size, SetToSeq(X)))
IsBest(S, X) ==
  /\ X \in Selections(S)
  /\ \A Y \in Selections(S) :
       \/ TotalSet(Y) < TotalSet(X)
       \/ TotalSet(Y) = TotalSet(X) /\ (Y = X \/ Prefer(SortSpans(S), X, Y))

\* the same, computed from right to left: best[k] selects among candidates k..
NextFit(c, k) == LET later == { l \in 1..Len(c) : c[l][1] >= c[k][2] }
              IN IF later = {} THEN Len(c) + 1 ELSE Min(later)
RECURSIVE BestFrom(_, _, _)
BestFrom(c, k, best) ==    \* best: function on k+1..Len(c)+1
  IF k = 0 THEN best[1]
  ELSE LET nx == best[NextFit(c, k)]
           with == [t |-> Size(c[k]) + nx.t, sel |-> <<c[k]>> \o nx.sel]
           without == best[k + 1]
       IN BestFrom(c, k - 1, best @@ (k :> IF with.t >= without.t THEN with ELSE without))
Resolve(S) == LET c == SortSpans(S) IN
              BestFrom(c, Len(c), (Len(c) + 1) :> [t |-> 0, sel |-> <<>>]).sel
=============================================================================
