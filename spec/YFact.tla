------------------------------- MODULE YFact -------------------------------
(* Interpretation: from a derivation tree to a fact.                        *)
(*                                                                          *)
(* node [k "int", r, f] with f one of                                       *)
(*   [t "fact", c]                        fact of class c                   *)
(*   [t "attr", c, a]  [t "attrz", c, a, z]   attribute, maybe normalized   *)
(*   [t "norm", z]                        normalizer alone                  *)
(* z one of [z "norm"] [z "infl", gl] [z "const", v] [z "fun", fn]          *)
(*          [z "normfun", fn] [z "inflfun", gl, fn]   fn: function names    *)
(* class: [c, par, at <<[a, rep, def]>>]; par is "" or the base class.      *)
(*                                                                          *)
(* Values are rendered as text: 'x' string, None, [..] list, C(a=..) fact,  *)
(* {a:..} JSON view, f<..> result of a user function.                       *)
EXTENDS YAgree

ClassOf(CL, c) == CL[CHOOSE k \in 1..Len(CL) : CL[k].c = c]
RECURSIVE IsSub(_, _, _)
IsSub(CL, c, d) == c = d \/ (ClassOf(CL, c).par # "" /\ IsSub(CL, ClassOf(CL, c).par, d))
Attrs(CL, c) == ClassOf(CL, c).at
AttrOf(CL, c, a) == LET at == Attrs(CL, c) IN at[CHOOSE k \in 1..Len(at) : at[k].a = a]

----------------------------------------------------------------------------
(* text of tokens: one space exactly where the text has a gap               *)
RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(T, ps, W, k) ==
  IF k > Len(ps) THEN ""
  ELSE (IF k > 1 /\ T[ps[k]].st > T[ps[k-1]].en THEN " " ELSE "") \o W[k] \o JoinFrom(T, ps, W, k+1)

Text(T, ps)  == JoinFrom(T, ps, [k \in 1..Len(ps) |-> T[ps[k]].v], 1)
NormText(T, lead, ps) ==
  JoinFrom(T, ps, [k \in 1..Len(ps) |-> IF T[ps[k]].m THEN T[ps[k]].fs[lead[ps[k]]].nf ELSE T[ps[k]].low], 1)
InflText(T, lead, ps, gl) ==
  JoinFrom(T, ps, [k \in 1..Len(ps) |->
     IF T[ps[k]].m
     THEN LET f == T[ps[k]].fs[lead[ps[k]]]
          IN IF "fl" \in DOMAIN f THEN IF gl \in DOMAIN f.fl THEN f.fl[gl] ELSE f.nf
             ELSE IF f.ok THEN f.nf \o "+" \o gl ELSE f.nf
     ELSE T[ps[k]].low], 1)

Quote(s) == "'" \o s \o "'"
RECURSIVE Apply(_, _)
Apply(fn, x) == IF fn = <<>> THEN x ELSE Apply(Tail(fn), Head(fn) \o "<" \o x \o ">")
RECURSIVE Sep(_, _)
Sep(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Sep(Tail(ss), sep)

Err == [r |-> "err"]
IsErr(v) == v.r = "err"

----------------------------------------------------------------------------
(* X = [T, lead, CL, N]                                                     *)
RECURSIVE Norm(_, _)
Norm(X, v) ==
  CASE v.r = "chain" -> Quote(Text(X.T, v.ps))
    [] v.r = "nz"    -> v.v
    [] v.r = "attr"  -> Norm(X, v.val)
    [] v.r = "fact"  ->
         LET at == Attrs(X.CL, v.c) IN
         v.c \o "(" \o
         Sep([k \in 1..Len(at) |-> at[k].a \o "=" \o
               (IF at[k].rep THEN "[" \o Sep([i \in 1..Len(v.at[at[k].a]) |-> Norm(X, v.at[at[k].a][i])], ",") \o "]"
                ELSE IF v.at[at[k].a] = <<>> THEN at[k].def ELSE Norm(X, v.at[at[k].a][1]))], ",")
         \o ")"

RECURSIVE Json(_, _)
Json(X, v) ==
  CASE v.r = "chain" -> Quote(Text(X.T, v.ps))
    [] v.r = "nz"    -> v.v
    [] v.r = "attr"  -> Json(X, v.val)
    [] v.r = "fact"  ->
         LET at == Attrs(X.CL, v.c)
             val(k) == IF at[k].rep
                       THEN "[" \o Sep([i \in 1..Len(v.at[at[k].a]) |-> Json(X, v.at[at[k].a][i])], ",") \o "]"
                       ELSE IF v.at[at[k].a] = <<>> THEN at[k].def ELSE Json(X, v.at[at[k].a][1])
             vals == [k \in 1..Len(at) |-> val(k)]
             keep == SelectSeq([k \in 1..Len(at) |-> k], LAMBDA k : vals[k] # "None")
         IN "{" \o Sep([i \in 1..Len(keep) |-> at[keep[i]].a \o ":" \o vals[keep[i]]], ",") \o "}"

SpanOf(T, ps) == <<T[ps[1]].st, T[ps[Len(ps)]].en>>

RECURSIVE Spans(_, _)
Spans(X, v) ==
  CASE v.r = "tok"   -> << SpanOf(X.T, v.ps) >>
    [] v.r = "chain" -> << SpanOf(X.T, v.ps) >>
    [] v.r = "nz"    -> Concat([k \in 1..Len(v.inp) |-> Spans(X, v.inp[k])])
    [] v.r = "attr"  -> Spans(X, v.val)
    [] v.r = "fact"  ->
         LET at == Attrs(X.CL, v.c) IN
         Concat([k \in 1..Len(at) |->
            Concat([i \in 1..Len(v.at[at[k].a]) |-> Spans(X, v.at[at[k].a][i])])])

----------------------------------------------------------------------------
AllTok(items) == \A k \in 1..Len(items) : items[k].r = "tok"
ChainOf(items, key) == [r |-> "chain", ps |-> Concat([k \in 1..Len(items) |-> items[k].ps]), key |-> key]

\* value of normalizer z applied to input v (a chain or a result)
Normalize(X, z, v) ==
  CASE z.z = "norm"    -> IF v.r # "chain" THEN "" ELSE
                          IF v.key # "" THEN Quote(v.key) ELSE Quote(NormText(X.T, X.lead, v.ps))
    [] z.z = "infl"    -> IF v.r # "chain" THEN "" ELSE Quote(InflText(X.T, X.lead, v.ps, z.gl))
    [] z.z = "fun"     -> Apply(z.fn, Norm(X, v))
    [] z.z = "normfun" -> IF v.r # "chain" THEN "" ELSE
                          Apply(z.fn, IF v.key # "" THEN Quote(v.key) ELSE Quote(NormText(X.T, X.lead, v.ps)))
    [] z.z = "inflfun" -> IF v.r # "chain" THEN "" ELSE Apply(z.fn, Quote(InflText(X.T, X.lead, v.ps, z.gl)))

NormResult(X, z, items, key) ==
  IF \E k \in 1..Len(items) : IsErr(items[k]) THEN Err
  ELSE IF z.z = "const"
  THEN [r |-> "nz", v |-> z.v, inp |-> IF AllTok(items) THEN <<ChainOf(items, key)>> ELSE items]
  ELSE IF ~AllTok(items) /\ Len(items) # 1 THEN Err
  ELSE LET v == IF AllTok(items) THEN ChainOf(items, key) ELSE items[1]
           s == Normalize(X, z, v)
       IN IF s = "" THEN Err ELSE [r |-> "nz", v |-> s, inp |-> <<v>>]

SetAttr(X, fact, a, val) ==
  IF AttrOf(X.CL, fact.c, a).rep
  THEN [fact EXCEPT !.at[a] = Append(@, val)]
  ELSE [fact EXCEPT !.at[a] = <<val>>]

MergeFact(X, fact, other) ==
  [fact EXCEPT !.at = [a \in DOMAIN @ |->
      IF other.at[a] = <<>> THEN fact.at[a]
      ELSE IF AttrOf(X.CL, fact.c, a).rep THEN fact.at[a] \o other.at[a] ELSE other.at[a]]]

RECURSIVE Assemble(_, _, _)
Assemble(X, fact, items) ==
  IF items = <<>> THEN fact
  ELSE LET it == Head(items) IN
    IF IsErr(it) THEN Err
    ELSE IF it.r = "attr" /\ IsSub(X.CL, fact.c, it.c)
         THEN Assemble(X, SetAttr(X, fact, it.a, it.val), Tail(items))
    ELSE IF it.r = "fact" /\ IsSub(X.CL, it.c, fact.c)
         THEN Assemble(X, MergeFact(X, fact, it), Tail(items))
    ELSE Assemble(X, fact, Tail(items))

RECURSIVE Interp(_, _)
RECURSIVE Marked(_, _)
\* tokens and nearest marked parts below a node
Marked(X, tr) ==
  Concat([k \in 1..Len(tr.ch) |->
     IF tr.ch[k].n = 0 THEN << [r |-> "tok", ps |-> <<tr.ch[k].pos>>] >>
     ELSE IF tr.ch[k].n > 0 /\ X.N[tr.ch[k].n].k = "int" /\ Covers(tr.ch[k]) THEN << Interp(X, tr.ch[k]) >>
     ELSE Marked(X, tr.ch[k])])

Interp(X, tr) ==
  LET f == X.N[tr.n].f
      items == Marked(X, tr)
      below == tr.ch[1]
      key == IF below.n > 0 /\ X.N[below.n].k = "pipe" THEN X.N[below.n].ph[below.ph].text ELSE ""
  IN
  IF \E k \in 1..Len(items) : IsErr(items[k]) THEN Err ELSE
  CASE f.t = "fact" ->
         LET at == Attrs(X.CL, f.c)
             new == [r |-> "fact", c |-> f.c, at |-> [a \in { at[k].a : k \in 1..Len(at) } |-> <<>>]]
         IN Assemble(X, new, items)
    [] f.t = "attr" ->
         IF AllTok(items) THEN [r |-> "attr", c |-> f.c, a |-> f.a, val |-> ChainOf(items, key)]
         ELSE IF Len(items) # 1 THEN Err
         ELSE [r |-> "attr", c |-> f.c, a |-> f.a,
               val |-> IF items[1].r = "attr" THEN items[1].val ELSE items[1]]
    [] f.t = "attrz" ->
         LET v == NormResult(X, f.z, items, key) IN
         IF IsErr(v) THEN Err ELSE [r |-> "attr", c |-> f.c, a |-> f.a, val |-> v]
    [] f.t = "norm" -> NormResult(X, f.z, items, key)

\* [fact, json, spans] of a match, or "error"
RECURSIVE FactOf(_, _)
FactOf(X, tr) ==
  IF tr.n > 0 /\ X.N[tr.n].k = "fwd" THEN FactOf(X, tr.ch[1])    \* stands for its definition
  ELSE IF tr.n < 1 \/ X.N[tr.n].k # "int" THEN [e |-> "ValueError"]
  ELSE LET v == Interp(X, tr) IN
    IF IsErr(v) THEN [e |-> "TypeError"]
    ELSE [e |-> "", fact |-> Norm(X, v), r |-> v.r,
          json |-> IF v.r = "fact" THEN Json(X, v) ELSE "",
          spans |-> IF v.r = "fact" THEN Spans(X, v) ELSE <<>>]
=============================================================================
