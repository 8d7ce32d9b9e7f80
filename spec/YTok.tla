-------------------------------- MODULE YTok --------------------------------
(* The tokenizer.  Text is a sequence of code points.                       *)
(*                                                                          *)
(* rule  [ty, alts]     alts: sequence of patterns, tried in order          *)
(* pattern: sequence of atoms, matched greedily with backtracking           *)
(* atom  [cs, lo, hi]   lo to hi (0: any number) code points of class cs    *)
(*       [sub, lo, hi]  the same for a group given by pattern sub           *)
(* cs    sequence of class names and code points                            *)
EXTENDS YUtil

Space == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
\* in any case: some letters of other alphabets are a case of these
LatinCp == 65..90 \cup 97..122 \cup {304, 305, 383, 8490}
CyrCp == 1040..1103 \cup {1025, 1105} \cup 7296..7302
DigitCp == 48..57 \cup 1632..1641 \cup 2406..2415
PunctCp == {45, 92, 47, 33, 35, 36, 37, 38, 40, 41, 91, 93, 42, 43, 44, 46, 58, 59, 60, 61, 62, 63, 64, 94, 95,
            96, 123, 124, 125, 126, 8470, 8230, 34, 39, 171, 187, 8222, 8220, 700, 699, 8221}

InClass(x, c) ==
  CASE c = "ru"    -> x \in CyrCp
    [] c = "latin" -> x \in LatinCp
    [] c = "digit" -> x \in DigitCp
    [] c = "punct" -> x \in PunctCp
    [] c = "eol"   -> x \in {10, 13}
    [] c = "space" -> x \in Space
    [] c = "nonspace" -> x \notin Space

InAny(x, a) == \E k \in 1..Len(a.names) : InClass(x, a.names[k])
               \/ x \in Range(a.cps)
Member(x, a) == (\E k \in 1..Len(a.names) : InClass(x, a.names[k])) \/ x \in Range(a.cps)

Atom(names, cps, lo, hi) == [names |-> names, cps |-> cps, lo |-> lo, hi |-> hi]
DefaultRules == <<
  [ty |-> "RU",    alts |-> << << Atom(<<"ru">>, <<>>, 1, 0) >> >>],
  [ty |-> "LATIN", alts |-> << << Atom(<<"latin">>, <<>>, 1, 0) >> >>],
  [ty |-> "INT",   alts |-> << << Atom(<<"digit">>, <<>>, 1, 0) >> >>],
  [ty |-> "PUNCT", alts |-> << << Atom(<<"punct">>, <<>>, 1, 1) >> >>],
  [ty |-> "EOL",   alts |-> << << Atom(<<"eol">>, <<>>, 1, 0) >> >>],
  [ty |-> "OTHER", alts |-> << << Atom(<<"nonspace">>, <<>>, 1, 1) >> >>] >>

\* ends of matches of atoms k.. of pattern p from position i (0-based), best first
RECURSIVE Ends(_, _, _, _)
RECURSIVE Rep(_, _, _, _, _, _)
Ends(p, k, text, i) ==
  IF k > Len(p) THEN <<i>> ELSE Rep(p, k, text, i, p[k].lo, p[k].hi)

\* lo more occurrences of atom k required, hi more allowed (0: any number; -1: none)
Rep(p, k, text, i, lo, hi) ==
  LET a == p[k]
      ones == IF hi = -1 THEN <<>>
              ELSE IF Has(a, "sub") THEN Ends(a.sub, 1, text, i)
              ELSE IF i < Len(text) /\ Member(text[i+1], a) THEN <<i + 1>> ELSE <<>>
      h2 == IF hi = 0 THEN 0 ELSE IF hi = 1 THEN -1 ELSE hi - 1
      more == Concat([x \in 1..Len(ones) |-> IF ones[x] = i THEN <<>>
                                             ELSE Rep(p, k, text, ones[x], MaxI(lo - 1, 0), h2)])
  IN IF lo > 0 THEN more ELSE more \o Ends(p, k + 1, text, i)

RECURSIVE FirstAlt(_, _, _, _)
FirstAlt(alts, k, text, i) ==
  IF k > Len(alts) THEN -1
  ELSE LET e == Ends(alts[k], 1, text, i) IN IF e # <<>> THEN e[1] ELSE FirstAlt(alts, k + 1, text, i)

\* first rule that matches at i: <<rule, end>> or <<0, i>>
RECURSIVE FirstRule(_, _, _, _)
FirstRule(rules, k, text, i) ==
  IF k > Len(rules) THEN <<0, i>>
  ELSE LET e == FirstAlt(rules[k].alts, 1, text, i) IN
       IF e >= 0 THEN <<k, e>> ELSE FirstRule(rules, k + 1, text, i)

RECURSIVE TokensFrom(_, _, _)
TokensFrom(rules, text, i) ==
  IF i >= Len(text) THEN <<>>
  ELSE LET f == FirstRule(rules, 1, text, i) IN
       IF f[1] = 0 THEN TokensFrom(rules, text, i + 1)
       ELSE << [st |-> i, en |-> f[2], ty |-> rules[f[1]].ty, v |-> SubSeq(text, i + 1, f[2])] >>
            \o TokensFrom(rules, text, f[2])
Tokens(rules, text) == TokensFrom(rules, text, 0)

Types(rules) == { rules[k].ty : k \in 1..Len(rules) }

----------------------------------------------------------------------------
(* properties of the design itself                                          *)
Ordered(ts) == \A k \in 1..(Len(ts)-1) : ts[k].en <= ts[k+1].st
Faithful(ts, text) == \A k \in 1..Len(ts) : ts[k].v = SubSeq(text, ts[k].st + 1, ts[k].en) /\ ts[k].st < ts[k].en
Covered(ts, i) == \E k \in 1..Len(ts) : ts[k].st <= i /\ i < ts[k].en
NothingLost(rules, ts, text) ==
  \A i \in 0..(Len(text)-1) : ~Covered(ts, i) => FirstRule(rules, 1, text, i)[1] = 0
OnlySpaceSkipped(ts, text) ==
  \A i \in 0..(Len(text)-1) : ~Covered(ts, i) <=> text[i+1] \in Space \ {10, 13}
=============================================================================
