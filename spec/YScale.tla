------------------------------- MODULE YScale ------------------------------
(* Rules of some shape s = [sh, b] (b a number) and texts of n words, with  *)
(* closed forms of what is derived, so that texts of any length can be      *)
(* judged.  ScaleModel checks the closed forms against YParse.              *)
EXTENDS YParse

RECURSIVE Times_(_, _)
Times_(w, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN w \o Times_(w, k - 1)
                ELSE LET h == Times_(w, k \div 2) IN h \o h
W(k) == Times_("a", k)

Eq(w) == [p |-> [p |-> "eq", v |-> w]]
Ref(r) == [r |-> r]
Rule(items) == [k |-> "rule", items |-> items, main |-> 0]
Rep(r) == [k |-> "rep", r |-> r, rev |-> FALSE]
Opt(r) == [k |-> "opt", r |-> r, rev |-> TRUE]
Or(rs) == [k |-> "or", rs |-> rs]
Fwd(r) == [k |-> "fwd", r |-> r]
Bnd(r, lo, hi) == [k |-> "bnd", r |-> r, lo |-> lo, hi |-> hi, rev |-> FALSE, lo1 |-> TRUE]
Mark(r, f) == [k |-> "int", r |-> r, f |-> f]
Named(r, nm) == [k |-> "named", r |-> r, name |-> nm]
Pipe(kind, b) == [k |-> "pipe", kind |-> kind,
                  ph |-> [k \in 1..b |-> [text |-> Times_("a ", k - 1) \o "a", ws |-> [l \in 1..k |-> [v |-> "a", low |-> "a"]]]]]
FC == [t |-> "attr", c |-> "F", a |-> "c"]
FF == [t |-> "fact", c |-> "F"]
Name(k) == "@n" \o ToString(k)

\* nodes; the root is the last one, or the first if that is a forward rule
Shape_(s) ==
  CASE s.sh = "rep"     -> << Rule(<<Eq("a")>>), Rep(1) >>
    [] s.sh = "lazy"    -> << Rule(<<Eq("a")>>), [Rep(1) EXCEPT !.rev = TRUE] >>
    [] s.sh = "left"    -> << Fwd(4), Rule(<<Eq("a")>>), Rule(<<Ref(1), Eq("a")>>), Or(<<3, 2>>) >>
    [] s.sh = "right"   -> << Fwd(4), Rule(<<Eq("a")>>), Rule(<<Eq("a"), Ref(1)>>), Or(<<3, 2>>) >>
    [] s.sh = "last"    -> << Fwd(4), Rule(<<Eq("a")>>), Rule(<<Eq("a"), Ref(1)>>), Or(<<2, 3>>) >>
    [] s.sh = "empty"   -> << Fwd(4), [k |-> "empty"], Rule(<<Eq("a"), Ref(1)>>), Or(<<3, 2>>) >>
    [] s.sh = "mutual"  -> << Fwd(5), Fwd(6), Rule(<<Eq("a")>>), Rule(<<Eq("a"), Ref(2)>>), Or(<<4, 3>>), Rule(<<Eq("a"), Ref(1)>>) >>
    [] s.sh = "mid"     -> << Fwd(4), Rule(<<Eq("a")>>), Rule(<<Eq("a"), Ref(1), Eq("a")>>), Or(<<3, 2>>) >>
    [] s.sh = "self"    -> << Fwd(5), Rule(<<Eq("a")>>), Rep(2), Rule(<<Ref(1)>>), Or(<<3, 4>>) >>
    [] s.sh = "min"     -> << Rule(<<Eq("a")>>), Bnd(1, s.b, 0) >>
    [] s.sh = "max"     -> << Rule(<<Eq("a")>>), Bnd(1, 1, s.b) >>
    [] s.sh = "minmax"  -> << Rule(<<Eq("a")>>), Bnd(1, s.b, 2 * s.b) >>
    [] s.sh = "list"    -> << Rule(<<Eq(","), Eq("a")>>), Rep(1), Opt(2), Rule(<<Eq("a"), Ref(3)>>) >>
    [] s.sh = "nest"    -> << Fwd(4), Rule(<<Eq("("), Eq(")")>>), Rule(<<Eq("("), Ref(1), Eq(")")>>), Or(<<3, 2>>) >>
    [] s.sh = "alts"    -> Concat([k \in 1..s.b |-> << Rule(<< [p |-> [p |-> "in", vs |-> [l \in 1..k |-> W(l)]]] >>), Named(2 * k - 1, Name(k)) >>])
                           \o << Or([k \in 1..s.b |-> 2 * k]) >>
    [] s.sh = "wide"    -> << Rule([k \in 1..s.b |-> Eq("a")]) >>
    [] s.sh = "opts"    -> << Rule(<<Eq("a")>>), Opt(1), Rule([k \in 1..s.b |-> Ref(2)]) >>
    [] s.sh = "chain"   -> << Rule(<<Eq("a")>>) >> \o [k \in 1..s.b |-> Named(k, Name(k))]
    [] s.sh = "facts"   -> << Rule(<<Eq("a")>>), Mark(1, FC), Rep(2), Mark(3, FF) >>
    [] s.sh = "nested"  -> << Fwd(5), Rule(<<Eq("a")>>), Mark(2, FC), Rule(<<Ref(3), Ref(6)>>), Mark(4, FF), Opt(1) >>
    [] s.sh = "phrases" -> << Pipe("plain", s.b) >>
    [] s.sh = "caseless" -> << Pipe("caseless", s.b) >>
    [] s.sh = "morph"   -> << Pipe("morph", s.b) >>
    [] s.sh = "digits"  -> << Rule(<< [p |-> [p |-> "gte", n |-> 6]] >>), Named(1, Name(1)), Rule(<< [p |-> [p |-> "lte", n |-> 5]] >>), Named(3, Name(2)), Or(<<2, 4>>) >>
    [] s.sh = "vocab"   -> << Rule(<< [p |-> [p |-> "in", vs |-> [k \in 1..s.b |-> W(2 * k)]]], [p |-> [p |-> "incl", vs |-> [k \in 1..s.b |-> W(2 * k - 1)]]] >>) >>
    [] s.sh = "skip"    -> << Rule(<<Eq("b")>>) >>
    [] s.sh = "agree"   -> << Rule(<< [p |-> [p |-> "gram", v |-> "NOUN"]] >>), [k |-> "rel", r |-> 1, rid |-> 1], Rep(2) >>
Shapes == {"rep", "lazy", "left", "right", "last", "empty", "mutual", "mid", "self", "min", "max", "minmax", "list", "nest", "alts", "wide", "opts",
           "chain", "facts", "nested", "phrases", "caseless", "morph", "skip", "agree",
           "digits", "vocab"}
Bounded_ == {"min", "max", "minmax", "alts", "wide", "opts", "chain", "phrases", "caseless", "morph", "digits", "vocab"}
Ambiguous_ == {"list", "self", "opts", "alts"}

Root(s) == LET N == Shape_(s) IN IF N[1].k = "fwd" THEN 1 ELSE Len(N)
CLs == << [c |-> "F", par |-> "", at |-> << [a |-> "a", rep |-> FALSE, def |-> "None"], [a |-> "c", rep |-> TRUE, def |-> "None"] >>] >>
Rels == << [t |-> "gnc"] >>

Form(nf, g) == [nf |-> nf, g |-> g, ok |-> TRUE]
N1 == <<"NOUN", "masc", "sing", "nomn">>
N2 == <<"NOUN", "femn", "sing", "gent">>
\* a word with one reading, a word with two
Lex == << [w |-> "bo", fs |-> << Form("bo", N1) >>], [w |-> "vu", fs |-> << Form("vu", N2), Form("va", N1) >>] >>

WordAt(s, n, k) ==
  CASE s.sh = "list"  -> IF k % 2 = 1 THEN "a" ELSE ","
    [] s.sh = "nest"  -> IF 2 * k <= n THEN "(" ELSE ")"
    [] s.sh = "alts"  -> W(((k - 1) % s.b) + 1)
    \* numbers of b digits: 99..9, 00..05
    [] s.sh = "digits" -> IF k % 2 = 1 THEN Times_("9", s.b) ELSE Times_("0", s.b - 1) \o "5"
    [] s.sh = "vocab" -> IF k > 2 * s.b THEN "b" ELSE W(2 * s.b + 1 - k)
    [] s.sh = "skip"  -> IF k = n THEN "b" ELSE "a"
    [] s.sh = "agree" -> IF k = 1 THEN "bo" ELSE "vu"
    [] OTHER          -> "a"

\* is run <<i, j>> of a text of n words derived?
Acc(s, n, i, j) ==
  LET l == j - i IN
  CASE s.sh = "mid"    -> l % 2 = 1
    [] s.sh = "min"    -> l >= s.b
    [] s.sh \in {"max", "opts", "phrases", "caseless", "morph"} -> l <= s.b
    [] s.sh = "minmax" -> l \in s.b..(2 * s.b)
    [] s.sh = "mutual" -> l % 2 = 1
    [] s.sh = "list"   -> i % 2 = 0 /\ l % 2 = 1
    [] s.sh = "nest"   -> i + j = 2 * (n \div 2)
    [] s.sh \in {"alts", "chain", "digits"} -> l = 1
    [] s.sh = "vocab"  -> l = 2 /\ i % 2 = 0 /\ j <= 2 * s.b
    [] s.sh = "wide"   -> l = s.b
    [] s.sh = "skip"   -> l = 1 /\ j = n
    [] OTHER           -> TRUE
\* number of derivations of a run, if the rule is not in Ambiguous_
Ders(s, n, i, j) == IF s.sh = "alts" THEN s.b - (i % s.b) ELSE 1

\* what findall selects, run by run from position i
RECURSIVE CoverFrom(_, _, _)
CoverFrom(s, n, i) ==
  IF i >= n THEN <<>>
  ELSE LET left == n - i
           len == CASE s.sh \in {"mid", "mutual", "list"} -> IF left % 2 = 1 THEN left ELSE left - 1
                    [] s.sh \in {"max", "opts", "phrases", "caseless", "morph"} -> MinI(s.b, left)
                    [] s.sh = "min"    -> IF left >= s.b THEN left ELSE 0
                    [] s.sh = "minmax" -> IF left < s.b THEN 0
                                          ELSE Max({ p \in s.b..(2 * s.b) : p = left \/ left - p >= s.b })
                    [] s.sh = "nest"   -> IF i = 0 /\ n > 1 THEN 2 * (n \div 2) ELSE 0
                    [] s.sh \in {"alts", "chain", "digits"} -> 1
                    [] s.sh = "vocab" -> IF i % 2 = 0 /\ left > 1 /\ i < 2 * s.b THEN 2 ELSE 0
                    [] s.sh = "wide"   -> IF left >= s.b THEN s.b ELSE 0
                    [] s.sh = "skip"   -> IF left = 1 THEN 1 ELSE 0
                    [] OTHER -> left
           \* in a list of even length the last comma is left over
           next == IF s.sh = "list" THEN i + len + 1 ELSE i + (IF len = 0 THEN 1 ELSE len)
       IN (IF len = 0 THEN <<>> ELSE << <<i, i + len>> >>) \o CoverFrom(s, n, next)
Cover(s, n) == CoverFrom(s, n, 0)

\* names in the preferred derivation of a run, outermost first
NamesOf(s, n, i, j) ==
  CASE s.sh = "alts"  -> << Name((i % s.b) + 1) >>
    [] s.sh = "chain" -> [k \in 1..s.b |-> Name(s.b + 1 - k)]
    [] s.sh = "digits" -> << Name((i % 2) + 1) >>
    [] OTHER          -> <<>>
\* readings left of a word of a match <<i, j>>
KeptOf(s, n, i, j, k) == IF s.sh # "agree" THEN {} ELSE IF i = 0 /\ k > 1 THEN (IF j = 1 THEN {1, 2} ELSE {2}) ELSE IF k = 1 THEN {1} ELSE {1, 2}
\* values of the repeatable attribute of the fact of a match
ValuesOf(s, n, i, j) == IF s.sh \in {"facts", "nested"} THEN [k \in 1..(j-i) |-> "a"] ELSE <<>>
=============================================================================
