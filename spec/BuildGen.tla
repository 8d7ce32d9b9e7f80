------------------------------ MODULE BuildGen -----------------------------
(* All single calls over one argument of every kind, and parsers of them.   *)
EXTENDS YBuild, Json
CONSTANT Triples, OnlySeen   \* only what a parser sees

N(op) == [op |-> op, s |-> "", n |-> 0, id |-> 0, xs |-> <<>>]
T(op, s) == [N(op) EXCEPT !.s = s]
I(n) == [N("int") EXCEPT !.n = n]
X(op, xs) == [N(op) EXCEPT !.xs = xs]
Str(s) == T("str", s)
None == N("none")
Absent == N("absent")
True == [N("bool") EXCEPT !.n = 1]
False == N("bool")
Case(root) == [facts |-> << [name |-> "F", attrs |-> << [name |-> "a", rep |-> FALSE], [name |-> "c", rep |-> TRUE] >>],
                            [name |-> "G", attrs |-> << [name |-> "b", rep |-> FALSE] >>] >>,
               defs |-> << [id |-> 0, s |-> "p", xs |-> << Str("a"), X("opt", << T("fwd", "p"), Absent >>) >>] >>,
               root |-> root, tok |-> Absent, tagger |-> Absent]

Rule1 == X("rule", << Str("a") >>)
Attr(f, a) == [N("attr") EXCEPT !.s = f, !.xs = << Str(a) >>]
Atoms == { Str("a"), I(1), I(0), None, True, N("list"), N("junk"),
           T("eq", "a"), T("gram", "NOUN"), X("and", << T("eq", "a"), T("type", "INT") >>),
           N("gender"), X("not", << N("gnc") >>),
           Rule1, N("empty"), T("fwd", "p"), X("opt", << T("fwd", "p"), Absent >>), X("rep", << Rule1, Absent, Absent, Absent >>),
           X("pipe", << Str("a b"), Str("c") >>), X("named", << Rule1, Str("N") >>),
           X("main", << T("eq", "a") >>), X("main", << Rule1 >>),
           T("factclass", "F"), Attr("F", "a"), Attr("F", "c"), X("anormalized", << Attr("F", "a") >>), N("nnormalized"),
           X("scheme", << Absent, Str("a") >>) }
Callable == { x \in Atoms : Kind(Case(x), x) \in RuleKinds \cup {"pred"} }
Few == { Str("a"), T("eq", "a"), N("gender"), Rule1, T("fwd", "p"), X("main", << T("eq", "a") >>), X("main", << Rule1 >>) }
Bounds == { None, Absent, I(-1), I(0), I(1), I(2), I(3), I(11), Str("1"), N("list") }
Revs == { Absent, True, False, None, I(1), Str("x") }

Lists(S) == { <<x>> : x \in S } \cup { <<x, y>> : x \in S, y \in S }
Threes == IF Triples THEN { <<x, y, z>> : x \in Few, y \in Few, z \in Few } ELSE {}
Calls ==
     { X(op, xs) : op \in {"and", "or", "rule"}, xs \in Lists(Atoms) \cup Threes }
  \cup { X(op, <<x>>) : op \in {"not", "main"}, x \in Atoms }
  \cup { X("opt", <<x, r>>) : x \in Callable, r \in Revs }
  \cup { X("rep", <<x, lo, hi, r>>) : x \in Callable, lo \in Bounds, hi \in Bounds, r \in {Absent, True, Str("x")} }
  \cup { X(op, <<x, y>>) : op \in {"named", "match", "interp"}, x \in Callable, y \in Atoms }
  \cup { X(op, xs) : op \in {"pipe", "clpipe", "morphpipe"}, xs \in Lists({ Str("a"), Str("b c"), I(1), None, N("list"), T("eq", "a"), Rule1 }) }
  \cup { Attr(f, a) : f \in {"F", "G"}, a \in {"a", "b", "c", "z"} }
  \cup { [X("factobj", xs) EXCEPT !.s = f] : f \in {"F", "G"}, xs \in {<<>>} \cup Lists({ Str("a"), Str("b"), Str("c"), Str("z") }) }
  \cup { X("srep", << X("scheme", << d, Str("a") >>) >>) : d \in {Absent, None, I(0), I(1), Str(""), Str("x"), True, False, N("list")} }
  \cup { X(op, << Attr("F", "a") >>) : op \in {"anormalized", "ainflected", "aconst", "acustom"} }
  \cup { N(op) : op \in NormOps }
  \cup { T(op, "a") : op \in PredOps }
\* parsers: of any call that makes a rule, and of other things
UnderParser(e) == IF Kind(Case(e), e) \in RuleKinds \/ e \in Atoms THEN Case(e)
                  ELSE IF Kind(Case(e), e) \in {"pred", "main"} THEN Case(X("rule", <<e>>))
                  ELSE IF Kind(Case(e), e) = "rel" THEN Case(X("match", << Rule1, e >>))
                  ELSE IF Kind(Case(e), e) \in {"attr", "norm", "factclass"} THEN Case(X("interp", << Rule1, e >>))
                  ELSE IF Kind(Case(e), e) = "factobj" THEN Case(X("interp", << Rule1, X("nconst", <<e>>) >>))
                  ELSE IF Kind(Case(e), e) = "scheme" THEN Case(X("interp", << Rule1, X("factnew", <<e>>) >>))
                  ELSE Case(X("list", <<e>>))
\* definitions of forward rules and things that only a parser can see
Unknowns == { T("gram", "NOUN"), T("gram", "noun"), T("gram", "XXXX"), T("type", "INT"), T("type", "int"), T("type", "XXXX"), T("type", "PHONE"),
              T("tag", "T"), T("tag", "XXXX"), X("custom", << T("str", "INT") >>), X("custom", << T("str", "INT"), T("str", "XXXX") >>), X("custom", <<>>),
              T("fwd", "p"), T("fwd", "undefined") }
Around(x) == IF x.op = "fwd" THEN { X("or", << Rule1, x >>), X("rule", << Str("a"), X("main", <<x>>) >>), X("rep", << x, I(2), I(3), Absent >>), X("interp", << x, T("factclass", "F") >>), X("match", << x, N("gnc") >>) }
             ELSE { X("rule", <<x>>), X("rule", << X("not", <<x>>) >>), X("rule", << X("and", << T("eq", "a"), X("or", << N("true"), X("not", <<x>>) >>) >>) >>),
                    X("rule", << Str("a"), X("main", <<x>>) >>), X("or", << Rule1, X("rule", << Str("b"), X("opt", << X("rule", <<x>>), True >>) >>) >>),
                    X("named", << x, Str("N") >>), X("interp", << x, Attr("F", "a") >>), X("match", << x, N("gender") >>) }
Rules(ty) == << T("tokrule", ty) >>
Tokenizers == { Absent, None, N("morphtokenizer"), N("tokenizer"), X("tokenizer", Rules("PHONE")), X("tokadd", << N("morphtokenizer") >> \o Rules("PHONE")),
                X("tokremove", << N("morphtokenizer"), Str("INT") >>) }
Taggers == { Absent, None, X("tagger", << Str("T"), Str("U") >>), X("taggers", << X("tagger", << Str("U") >>), X("tagger", << Str("T") >>) >>), X("tagger", << Str("U") >>), X("tagger", <<>>) }
Seen == { [Case(r) EXCEPT !.tok = t, !.tagger = g] : r \in UNION { Around(x) : x \in Unknowns }, t \in Tokenizers, g \in Taggers }
Wrong == { [Case(Rule1) EXCEPT !.tok = t] : t \in { Str("x"), I(1), N("junk"), X("tagger", << Str("T") >>), X("tokenizer", << Str("a") >>), X("tokenizer", << T("tokrule", "A"), I(1) >>),
                 X("tokadd", << N("tokenizer"), Str("a") >>), X("tokremove", << N("tokenizer"), Str("XXXX") >>), X("tokremove", << N("tokenizer"), Str("INT"), Str("XXXX") >>),
                 X("tokremove", << X("tokremove", << N("tokenizer"), Str("INT") >>), Str("INT") >>), X("tokremove", << X("tokadd", << N("tokenizer"), T("tokrule", "PHONE") >>), Str("PHONE") >>) } }
    \cup { [Case(Rule1) EXCEPT !.tagger = g] : g \in { Str("x"), I(1), N("junk"), N("tokenizer") } }
Defs == { [Case(T("fwd", "q")) EXCEPT !.defs = << [id |-> 0, s |-> "p", xs |-> <<Str("a")>>], [id |-> 0, s |-> "q", xs |-> xs] >>] :
          xs \in {<<>>} \cup { <<x>> : x \in Atoms } \cup { <<x, y>> : x \in Few, y \in Few } }

\* what a set is for a call whose kind cannot be told without its arguments being right
Total(e) == e.op \notin {"and", "or", "not"} \/ Kinds(Case(e), e) \subseteq {"pred", "rel"} \cup RuleKinds
All == IF OnlySeen THEN Seen ELSE { IF Total(e) THEN UnderParser(e) ELSE Case(e) : e \in Calls } \cup Seen \cup Wrong \cup Defs

VARIABLE c
Init == c \in All
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("HIST " \o ToJson(c))
=============================================================================
