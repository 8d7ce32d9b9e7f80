-------------------------------- MODULE YWord -------------------------------
(* Built-in predicates, defined on the characters (code points) of a token. *)
(*                                                                          *)
(* token  [cps code points, ty type, m has morphology, fs readings, tg tag] *)
(* reading [nf code points of the normal form, g grammemes]                 *)
(* context [nf word -> normal forms: sequence of [w, nfs], types, grams,    *)
(*          tags]: what the parser the predicate is used in knows           *)
EXTENDS YUtil

\* letters of the scripts in use that have case
UpperCp == 65..90 \cup 1040..1071 \cup {1025, 376, 931} \cup (192..222 \ {215})
LowerCp == 97..122 \cup 1072..1103 \cup {1105, 962, 963} \cup (223..255 \ {247})
CasedCp == UpperCp \cup LowerCp
LowerOf(x) == CASE x \in 65..90 -> x + 32
                [] x \in 1040..1071 -> x + 32
                [] x = 1025 -> 1105
                [] x = 376 -> 255
                [] x = 931 -> 963
                [] x \in (192..222 \ {215}) -> x + 32
                [] OTHER -> x
Lower(cps) == [k \in 1..Len(cps) |-> LowerOf(cps[k])]

IsLower(cps) == (\E k \in 1..Len(cps) : cps[k] \in CasedCp) /\ \A k \in 1..Len(cps) : cps[k] \notin UpperCp
IsUpper(cps) == (\E k \in 1..Len(cps) : cps[k] \in CasedCp) /\ \A k \in 1..Len(cps) : cps[k] \notin LowerCp
\* upper case begins a word, lower case continues it
IsTitle(cps) ==
  /\ \E k \in 1..Len(cps) : cps[k] \in CasedCp
  /\ \A k \in 1..Len(cps) :
       LET follows == k > 1 /\ cps[k-1] \in CasedCp IN
       /\ cps[k] \in UpperCp => ~follows
       /\ cps[k] \in LowerCp => follows
IsCapitalized(cps) == cps[1] \in UpperCp

DigitOf(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 1632..1641 THEN x - 1632 ELSE x - 2406
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds
Digits(cps) == Strip([k \in 1..Len(cps) |-> DigitOf(cps[k])])
\* numbers are given by their digits, so any size will do
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))

NormalOf(ctx, w) == IF \E k \in 1..Len(ctx.nf) : ctx.nf[k].w = w
                    THEN Range(ctx.nf[CHOOSE k \in 1..Len(ctx.nf) : ctx.nf[k].w = w].nfs)
                    ELSE {w}
SingleR(f) == "sing" \in Range(f.g) \/ "Sgtm" \in Range(f.g)

RECURSIVE HoldsW(_, _, _)
HoldsW(p, t, ctx) ==
  CASE p.p = "true"   -> TRUE
    [] p.p = "eq"     -> t.cps = p.v
    [] p.p = "cl"     -> Lower(t.cps) = Lower(p.v)
    [] p.p = "in"     -> t.cps \in Range(p.vs)
    [] p.p = "incl"   -> Lower(t.cps) \in { Lower(p.vs[k]) : k \in 1..Len(p.vs) }
    [] p.p = "len"    -> Len(t.cps) = p.n
    [] p.p = "gte"    -> t.ty = "INT" /\ (p.neg \/ ~NumLess(Digits(t.cps), p.ds))
    [] p.p = "lte"    -> t.ty = "INT" /\ ~p.neg /\ ~NumLess(p.ds, Digits(t.cps))
    [] p.p = "lower"  -> IsLower(t.cps)
    [] p.p = "upper"  -> IsUpper(t.cps)
    [] p.p = "title"  -> IsTitle(t.cps)
    [] p.p = "capitalized" -> IsCapitalized(t.cps)
    [] p.p = "type"   -> t.ty = p.v
    [] p.p = "tag"    -> t.tg = p.v
    [] p.p = "gram"   -> t.m /\ \E k \in 1..Len(t.fs) : p.v \in Range(t.fs[k].g)
    [] p.p = "single" -> t.m /\ \E k \in 1..Len(t.fs) : SingleR(t.fs[k])
    [] p.p = "dict"   -> LET due == UNION { NormalOf(ctx, Lower(p.vs[k])) : k \in 1..Len(p.vs) } IN
                         IF t.m THEN \E k \in 1..Len(t.fs) : t.fs[k].nf \in due
                                ELSE Lower(t.cps) \in due
    [] p.p = "fun"    -> (p.ts = <<>> \/ t.ty \in Range(p.ts)) /\ t.cps \in Range(p.vs)
    [] p.p = "and"    -> \A k \in 1..Len(p.ps) : HoldsW(p.ps[k], t, ctx)
    [] p.p = "or"     -> \E k \in 1..Len(p.ps) : HoldsW(p.ps[k], t, ctx)
    [] p.p = "not"    -> ~HoldsW(p.ps[1], t, ctx)

\* a part asks for something the parser does not know
RECURSIVE Unknown(_, _)
Unknown(p, ctx) ==
  CASE p.p = "type" -> p.v \notin Range(ctx.types)
    [] p.p = "tag"  -> p.v \notin Range(ctx.tags)
    [] p.p = "gram" -> p.v \notin Range(ctx.grams)
    [] p.p = "fun"  -> \E k \in 1..Len(p.ts) : p.ts[k] \notin Range(ctx.types)
    [] p.p \in {"and", "or", "not"} -> \E k \in 1..Len(p.ps) : Unknown(p.ps[k], ctx)
    [] OTHER -> FALSE
=============================================================================
