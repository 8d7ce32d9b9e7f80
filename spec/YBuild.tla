------------------------------- MODULE YBuild ------------------------------
(* Constructions: which calls of the public constructors are mistakes, and  *)
(* which mistakes appear only when a parser is made.                        *)
(* expression [op, s text, n number, id order of evaluation, xs arguments]  *)
(* case [facts <<[name, attrs <<[name, rep]>>]>>, defs <<[id, s, xs]>>,     *)
(*       root, tok, tagger, id of the parser, grams, types, known to be]    *)
EXTENDS YUtil

PredOps  == {"true", "eq", "caseless", "in", "incl", "gte", "lte", "len", "normalized", "dictionary", "gram", "type", "tag",
             "custom", "lower", "upper", "title", "capital", "single"}
RelOps   == {"gender", "number", "case", "gnc"}
QuantOps == {"opt", "rep"}
RuleOps  == {"rule", "empty", "pipe", "clpipe", "morphpipe", "named", "match", "interp"} \cup QuantOps
NormOps  == {"nnormalized", "ninflected", "nconst", "ncustom", "nchain"}

Facts(c, s) == CHOOSE f \in Range(c.facts) : f.name = s
Attrs(c, s) == { a.name : a \in Range(Facts(c, s).attrs) }
IsRep(c, s, a) == \E x \in Range(Facts(c, s).attrs) : x.name = a /\ x.rep

RECURSIVE Kind(_, _)
Kind(c, e) ==
  CASE e.op \in {"str", "int", "none", "bool", "list", "junk", "absent"} -> e.op
    [] e.op \in PredOps -> "pred"
    [] e.op \in RelOps -> "rel"
    [] e.op \in RuleOps -> "rule"
    [] e.op = "fwd" -> "forward"
    [] e.op = "main" -> "main"
    [] e.op \in {"and", "or"} -> IF Kind(c, e.xs[1]) = "forward" THEN "rule" ELSE Kind(c, e.xs[1])
    [] e.op = "not" -> Kind(c, e.xs[1])
    [] e.op = "factclass" -> "factclass"
    [] e.op = "factobj" -> "factobj"
    [] e.op = "attr" -> "attr"
    [] e.op \in {"anormalized", "ainflected", "aconst", "acustom"} -> "attr"
    [] e.op \in NormOps -> "norm"
    [] e.op \in {"scheme", "srep"} -> "scheme"
    [] e.op = "factnew" -> "factclass"
    [] e.op = "tokrule" -> "tokrule"
    [] e.op \in {"tokenizer", "morphtokenizer", "tokadd", "tokremove"} -> "tok"
    [] e.op \in {"tagger", "taggers"} -> "tagger"

Kinds(c, e) == { Kind(c, x) : x \in Range(e.xs) }
RuleKinds == {"rule", "forward"}
Mains(c, xs) == Cardinality({ i \in 1..Len(xs) : Kind(c, xs[i]) = "main" })

\* types known to a tokenizer
RECURSIVE TypesOf(_, _)
TypesOf(c, e) ==
  CASE e.op \in {"absent", "none", "morphtokenizer"} -> Range(c.types)
    [] e.op = "tokenizer" -> IF e.xs = <<>> THEN Range(c.types) ELSE { x.s : x \in Range(e.xs) }
    [] e.op = "tokadd"    -> TypesOf(c, e.xs[1]) \cup { x.s : x \in Range(Tail(e.xs)) }
    [] e.op = "tokremove" -> TypesOf(c, e.xs[1]) \ { x.s : x \in Range(Tail(e.xs)) }
    [] OTHER -> {}
RECURSIVE TagsOf(_, _)
TagsOf(c, e) ==
  CASE e.op = "tagger"  -> { x.s : x \in Range(e.xs) }
    [] e.op = "taggers" -> UNION { TagsOf(c, x) : x \in Range(e.xs) }
    [] OTHER -> {}
RECURSIVE HasMorph(_)
HasMorph(e) ==
  CASE e.op \in {"absent", "none", "morphtokenizer"} -> TRUE
    [] e.op \in {"tokadd", "tokremove"} -> HasMorph(e.xs[1])
    [] OTHER -> FALSE

\* mistakes in one call, given that its arguments are fine
WrongBounds(c, lo, hi) ==
  LET b == {lo, hi} IN
  \/ \E x \in b : Kind(c, x) \notin {"none", "absent", "int"}
  \/ \E x \in b : Kind(c, x) = "int" /\ x.n <= 0
  \/ Kind(c, lo) = "int" /\ Kind(c, hi) = "int" /\ hi.n < lo.n
Mistake(c, e) ==
  IF e.op \in QuantOps \cup {"named", "match", "interp"} /\ Kind(c, e.xs[1]) \notin RuleKinds \cup {"pred"} THEN TRUE ELSE
  CASE e.op = "and"  -> ~(Kinds(c, e) = {"pred"} \/ Kinds(c, e) = {"rel"})
    [] e.op = "or"   -> ~(Kinds(c, e) = {"pred"} \/ Kinds(c, e) = {"rel"} \/ Kinds(c, e) \subseteq RuleKinds)
    [] e.op = "not"  -> Kind(c, e.xs[1]) \notin {"pred", "rel"}
    [] e.op = "main" -> Kind(c, e.xs[1]) \notin RuleKinds \cup {"pred"}
    [] e.op = "rule" -> Mains(c, e.xs) > 1
    [] e.op = "opt"  -> Kind(c, e.xs[2]) \notin {"bool", "absent"}
    [] e.op = "rep"  -> Kind(c, e.xs[4]) \notin {"bool", "absent"} \/ WrongBounds(c, e.xs[2], e.xs[3])
    [] e.op = "named" -> Kind(c, e.xs[2]) # "str"
    [] e.op = "match" -> Kind(c, e.xs[2]) # "rel"
    [] e.op = "interp" -> Kind(c, e.xs[2]) \notin {"factclass", "attr", "norm"}
    [] e.op \in {"pipe", "clpipe", "morphpipe"} -> ~(Kinds(c, e) \subseteq {"str"})
    [] e.op = "attr" -> e.xs[1].s \notin Attrs(c, e.s)
    [] e.op = "factobj" -> \E x \in Range(e.xs) : x.s \notin Attrs(c, e.s)
    [] e.op = "srep" -> Kind(c, e.xs[1].xs[1]) \notin {"none", "absent"}
    [] e.op = "tokenizer" -> ~(Kinds(c, e) \subseteq {"tokrule"})
    [] e.op = "tokadd" -> ~({ Kind(c, x) : x \in Range(Tail(e.xs)) } \subseteq {"tokrule"})
    [] e.op = "tokremove" -> \E x \in Range(Tail(e.xs)) : x.s \notin TypesOf(c, e.xs[1])
    [] OTHER -> FALSE

\* calls nobody promises anything about
Unclear(c, e) ==
  CASE e.op = "rule" -> ~(Kinds(c, e) \subseteq {"str", "pred", "main"} \cup RuleKinds)
    [] e.op = "interp" -> Kind(c, e.xs[1]) = "pred" /\ Kind(c, e.xs[2]) = "factclass"
    [] e.op \in {"anormalized", "ainflected", "aconst", "acustom"} ->
         e.xs[1].op # "attr" \/ IsRep(c, e.xs[1].s, e.xs[1].xs[1].s)
    [] e.op = "scheme" -> FALSE
    [] OTHER -> FALSE

RECURSIVE Sub(_)
Sub(e) == {e} \cup UNION { Sub(x) : x \in Range(e.xs) }

\* forward rules by name; the last definition counts
DefOf(c, s) == LET ks == { k \in 1..Len(c.defs) : c.defs[k].s = s } IN IF ks = {} THEN <<>> ELSE c.defs[Max(ks)].xs
WrongDef(c, d) == \/ d.xs = <<>>
                  \/ Len(d.xs) = 1 /\ d.xs[1].op = "fwd"
                  \/ Mains(c, d.xs) > 1
UnclearDef(c, d) == ~({ Kind(c, x) : x \in Range(d.xs) } \subseteq {"str", "pred", "main"} \cup RuleKinds)

FwdsIn(es) == { x.s : x \in { y \in UNION { Sub(e) : e \in es } : y.op = "fwd" } }
RECURSIVE Reached(_, _)
Reached(c, S) == LET T == S \cup FwdsIn(UNION { Range(DefOf(c, s)) : s \in S }) IN IF T = S THEN S ELSE Reached(c, T)
Used(c) == LET R == Reached(c, FwdsIn({c.root})) IN Sub(c.root) \cup UNION { UNION { Sub(x) : x \in Range(DefOf(c, s)) } : s \in R }

\* mistakes seen when the parser is made
Unknown(c, e) ==
  CASE e.op = "gram" -> ~HasMorph(c.tok) \/ e.s \notin Range(c.grams)
    [] e.op = "type" -> e.s \notin TypesOf(c, c.tok)
    [] e.op = "custom" -> \E x \in Range(e.xs) : x.s \notin TypesOf(c, c.tok)
    [] e.op = "tag" -> e.s \notin TagsOf(c, c.tagger)
    [] e.op = "fwd" -> DefOf(c, e.s) = <<>>
    [] OTHER -> FALSE
ParserMistake(c) ==
  \/ Kind(c, c.root) \notin RuleKinds \cup {"pred"}
  \/ Kind(c, c.tok) \notin {"tok", "none", "absent"}
  \/ Kind(c, c.tagger) \notin {"tagger", "none", "absent"}
  \/ \E e \in Used(c) : Unknown(c, e)
ParserUnclear(c) == \/ Kind(c, c.root) = "pred"
                    \/ ~HasMorph(c.tok) /\ \E e \in Used(c) : e.op \in {"dictionary", "normalized", "morphpipe"}

Everything(c) == Sub(c.root) \cup Sub(c.tok) \cup Sub(c.tagger) \cup UNION { UNION { Sub(x) : x \in Range(d.xs) } : d \in Range(c.defs) }
MistakesIn(c) == { e.id : e \in { x \in Everything(c) : Mistake(c, x) } } \cup { d.id : d \in { x \in Range(c.defs) : WrongDef(c, x) } }
UnclearIn(c) == \/ \E x \in Everything(c) : Unclear(c, x)
                \/ \E d \in Range(c.defs) : UnclearDef(c, d)
=============================================================================
