-------------------------------- MODULE Sess --------------------------------
(* A session: rules are composed and listed, parsers are created from them, *)
(* texts are parsed, result iterators are advanced in any interleaving or   *)
(* abandoned, old matches are looked at again.                              *)
(*                                                                          *)
(* The abstract state: which parsers exist and from which version of the    *)
(* rules they were made, which iterators are open.  A parser is a value: it *)
(* is made from the rules as they are at that moment and never changes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES parsers,   \* parser -> [root, ver, env]: env is its tokenizer, dictionary, tagger
          iters,     \* iterator -> [p, t, env]
          ver,       \* version of the rules: forward rules redefined so far
          extra,     \* rules composed on top of the given ones so far
          seen       \* matches obtained so far

svars == <<parsers, iters, ver, extra, seen>>

NoMap == [x \in {} |-> 0]
SInit == parsers = NoMap /\ iters = NoMap /\ ver = 0 /\ extra = 0 /\ seen = 0

NewParser(p, r, e) == /\ parsers' = (p :> [root |-> r, ver |-> ver, env |-> e]) @@ parsers
                     /\ UNCHANGED <<iters, ver, extra, seen>>
Inspect           == UNCHANGED svars                      \* listing, drawing
Compose           == extra' = extra + 1 /\ UNCHANGED <<parsers, iters, ver, seen>>
Redefine          == ver' = ver + 1 /\ UNCHANGED <<parsers, iters, extra, seen>>
Parse(p, k)       == /\ p \in DOMAIN parsers
                     /\ seen' = seen + k
                     /\ UNCHANGED <<parsers, iters, ver, extra>>
Open(i, p, t)     == /\ p \in DOMAIN parsers
                     /\ iters' = (i :> [p |-> p, t |-> t, env |-> parsers[p].env]) @@ iters
                     /\ UNCHANGED <<parsers, ver, extra, seen>>
Advance(i, k)     == /\ i \in DOMAIN iters
                     /\ seen' = seen + k
                     /\ UNCHANGED <<parsers, iters, ver, extra>>
Abandon(i)        == /\ i \in DOMAIN iters
                     /\ iters' = [j \in DOMAIN iters \ {i} |-> iters[j]]
                     /\ UNCHANGED <<parsers, ver, extra, seen>>
Reread            == seen > 0 /\ UNCHANGED svars
=============================================================================
