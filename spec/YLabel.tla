------------------------------- MODULE YLabel ------------------------------
(* How parts of a grammar are named in listings and drawings.               *)
EXTENDS YParse

\* grammemes in the order they are listed
GramList(gl) == CASE gl = "nomn,sing" -> "nomn, sing" [] gl = "gent,plur" -> "gent, plur" [] OTHER -> gl

ZLabel(z) ==
  CASE z.z = "norm"    -> "normalized()"
    [] z.z = "infl"    -> "inflected(" \o GramList(z.gl) \o ")"
    [] z.z = "const"   -> "const(" \o z.v \o ")"
    [] z.z = "fun"     -> Sep([k \in 1..Len(z.fn) |-> "custom(" \o z.fn[k] \o ")"], ".")
    [] z.z = "normfun" -> "normalized()." \o z.fn[1]
    [] z.z = "inflfun" -> "inflected(" \o GramList(z.gl) \o ")." \o z.fn[1]

FLabel(f) ==
  CASE f.t = "fact"  -> f.c
    [] f.t = "attr"  -> f.c \o "." \o f.a
    [] f.t = "attrz" -> f.c \o "." \o f.a \o "." \o ZLabel(f.z)
    [] f.t = "norm"  -> ZLabel(f.z)

RECURSIVE RLabel(_)
RLabel(R) ==
  IF R.t \in {"and", "or", "not"}
  THEN R.t \o "_(" \o Sep([k \in 1..Len(R.rs) |-> RLabel(R.rs[k])], ", ") \o ")"
  ELSE R.t

\* of a predicate as the author wrote it
RECURSIVE PLabel(_)
PLabel(p) ==
  CASE p.p = "eq"   -> "'" \o p.v \o "'"
    [] p.p = "cl"   -> "caseless(value='" \o p.v \o "')"
    [] p.p = "in"   -> "in_(...)"
    [] p.p = "incl" -> "in_caseless(...)"
    [] p.p = "len"  -> "length_eq(value=" \o ToString(p.n) \o ")"
    [] p.p = "gte"  -> "gte(value=" \o ToString(p.n) \o ")"
    [] p.p = "lte"  -> "lte(value=" \o ToString(p.n) \o ")"
    [] p.p = "dict" -> IF p.one THEN "normalized(value='" \o p.vs[1] \o "')" ELSE "dictionary(...)"
    [] p.p = "gram" -> "gram(value='" \o p.v \o "')"
    [] p.p = "type" -> "type(value='" \o p.v \o "')"
    [] p.p = "tag"  -> "tag(value='" \o p.v \o "')"
    [] p.p = "single" -> "is_single()"
    [] p.p = "true" -> "true()"
    [] p.p = "fun"  -> "custom(<lambda>)"      \* the harness writes a lambda
    [] p.p \in {"and", "or", "not"} ->
         p.p \o "_(" \o Sep([k \in 1..Len(p.ps) |-> PLabel(p.ps[k])], ", ") \o ")"

PipeAbbr(kind) == IF kind = "plain" THEN "pipeline" ELSE kind \o "_pipeline"

QLabel(nd) ==
  CASE nd.k = "opt" -> "Optional"
    [] nd.k = "rep" -> "Repeatable"
    [] nd.k = "bnd" ->
         IF nd.hi = 0 THEN "MinBounded >=" \o ToString(nd.lo)
         ELSE IF nd.lo > 1 \/ (Has(nd, "lo1") /\ nd.lo1)
              THEN "MinMaxBounded [" \o ToString(nd.lo) \o ", " \o ToString(nd.hi) \o "]"
              ELSE "MaxBounded <=" \o ToString(nd.hi)

\* drawing of a node
NLabel(c, n) ==
  LET nd == c.N[n] IN
  CASE nd.k = "rule"  -> "Rule"
    [] nd.k = "or"    -> "Or"
    [] IsQuant(nd)    -> QLabel(nd)
    [] nd.k = "named" -> nd.name
    [] nd.k = "int"   -> FLabel(nd.f)
    [] nd.k = "rel"   -> RLabel(c.rels[nd.rid])
    [] nd.k = "fwd"   -> "Forward"
    [] nd.k = "empty" -> "Empty"
    [] nd.k = "pipe"  -> "[" \o PipeAbbr(nd.kind) \o "]"
=============================================================================
