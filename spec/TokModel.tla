------------------------------ MODULE TokModel -----------------------------
(* Any short text under tokenizers made from the default one by adding and  *)
(* removing rules; the text grows code point by code point.                 *)
(*  Promised   tokens are ordered, disjoint, cut out of the text, nothing a *)
(*             rule matches is lost                                         *)
(*  Skipped    with the default rules only white space is skipped           *)
(*  Separate   texts on both sides of a space are tokenized on their own    *)
(*  Typed      types come from the rules                                    *)
(*  Extended   a rule that never matches changes nothing when added         *)
EXTENDS YTok
CONSTANTS Alphabet, MaxLen
VARIABLES text, rs
\* "a1", one or two "@"
Code == [ty |-> "CODE", alts |-> << << Atom(<<"latin">>, <<>>, 1, 1), Atom(<<"digit">>, <<>>, 1, 1) >>, << Atom(<<>>, <<64>>, 1, 2) >> >>]
Never == [ty |-> "NEVER", alts |-> << << Atom(<<>>, <<35>>, 3, 0) >> >>]
Without(R, ty) == SelectSeq(R, LAMBDA r : r.ty # ty)
Tokenizers == { DefaultRules, <<Code>> \o DefaultRules, Without(DefaultRules, "OTHER"), Without(<<Code>> \o DefaultRules, "LATIN"), <<Code>>, <<>> }
Init == text = <<>> /\ rs \in Tokenizers
Next == Len(text) < MaxLen /\ \E x \in Alphabet : text' = Append(text, x) /\ UNCHANGED rs
Spec == Init /\ [][Next]_<<text, rs>>
Ts == Tokens(rs, text)
Promised == LET ts == TLCEval(Ts) IN Ordered(ts) /\ Faithful(ts, text) /\ NothingLost(rs, ts, text)
Skipped == rs = DefaultRules => OnlySpaceSkipped(Ts, text)
Typed == { Ts[k].ty : k \in 1..Len(Ts) } \subseteq Types(rs)
Shift(ts, d) == [k \in 1..Len(ts) |-> [ts[k] EXCEPT !.st = @ + d, !.en = @ + d]]
Separate == \A i \in 1..Len(text) : text[i] = 32 =>
              Ts = Tokens(rs, SubSeq(text, 1, i - 1)) \o Shift(Tokens(rs, SubSeq(text, i + 1, Len(text))), i)
Extended == Tokens(<<Never>> \o rs, text) = Ts /\ Tokens(rs \o <<Never>>, text) = Ts
=============================================================================
