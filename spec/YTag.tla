-------------------------------- MODULE YTag --------------------------------
(* Taggers.  A tagger looks at the whole sequence of tokens and gives tags   *)
(* to some of them; several taggers are applied in the order given, each to  *)
(* the tokens as the previous one left them.                                 *)
(*                                                                           *)
(* A tagger is a sequence of entries [by, v, n, k, tag]; the first entry     *)
(* that applies to a token gives its tag, otherwise it keeps the one it has: *)
(*   word  its text is v            pos   its index is k modulo n            *)
(*   prev  text of the previous is v   next  text of the next is v           *)
(*   tag   it came with tag v       ptag  the previous one came with tag v   *)
(*   run   the previous one has just been given tag v (spans of several      *)
(*         words)                    last  it is the last one                *)
EXTENDS YUtil

Applies(e, T, i, before) ==
  CASE e.by = "word" -> T[i].v = e.v
    [] e.by = "pos"  -> (i - 1) % e.n = e.k
    [] e.by = "prev" -> i > 1 /\ T[i-1].v = e.v
    [] e.by = "next" -> i < Len(T) /\ T[i+1].v = e.v
    [] e.by = "tag"  -> T[i].tg = e.v
    [] e.by = "ptag" -> i > 1 /\ T[i-1].tg = e.v
    [] e.by = "run"  -> before = e.v
    [] e.by = "last" -> i = Len(T)

RECURSIVE TagsFrom(_, _, _, _)
TagsFrom(tagger, T, i, before) ==
  IF i > Len(T) THEN <<>>
  ELSE LET at == { k \in 1..Len(tagger) : Applies(tagger[k], T, i, before) }
           tg == IF at = {} THEN T[i].tg ELSE tagger[Min(at)].tag
       IN <<tg>> \o TagsFrom(tagger, T, i + 1, tg)
TagOnce(tagger, T) == LET tg == TagsFrom(tagger, T, 1, "") IN [i \in 1..Len(T) |-> [T[i] EXCEPT !.tg = tg[i]]]

RECURSIVE TagAll(_, _, _)
TagAll(taggers, T, k) == IF k > Len(taggers) THEN T ELSE TagAll(taggers, TagOnce(taggers[k], T), k + 1)
Tagged(taggers, T) == TagAll(taggers, [i \in 1..Len(T) |-> [T[i] EXCEPT !.tg = ""]], 1)
=============================================================================
