------------------------------ MODULE SpanModel ----------------------------
(* Sets of candidate runs over positions 0..Size_, built run by run.        *)
(*  Chosen   what is computed from right to left is the declared optimum    *)
(*  Free     nothing that is left out fits into the gaps                    *)
(*  Grows    another candidate does not make the cover smaller              *)
(*  Split    texts that no candidate joins are resolved on their own        *)
EXTENDS YSpans, Json
CONSTANT Size_
VARIABLE S
Spans == { s \in (0..Size_) \X (0..Size_) : s[1] < s[2] }
Init == S = {}
Next == \E s \in Spans : (\A t \in S : SpanLess(t, s)) /\ S' = S \cup {s}
Spec == Init /\ [][Next]_S
Best == Range(Resolve(S))
Ordered == LET r == Resolve(S) IN NonOverlapping(r) /\ \A k \in 1..Len(r) : r[k] \in S
Chosen == IsBest(S, TLCEval(Best))
Free == LET b == TLCEval(Best) IN \A s \in S \ b : \E t \in b : s[1] < t[2] /\ t[1] < s[2]
Grows == LET t == TLCEval(Total(Resolve(S))) IN \A s \in Spans : Total(Resolve(S \cup {s})) >= t
Split == \A p \in 1..(Size_ - 1) :
           (\A s \in S : ~(s[1] < p /\ p < s[2])) =>
             Best = Range(Resolve({ s \in S : s[2] <= p })) \cup Range(Resolve({ s \in S : s[1] >= p }))
Emit == S # {} => PrintT("HIST " \o ToJson(SortSpans(S)))
=============================================================================
