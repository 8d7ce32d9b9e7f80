------------------------------- MODULE Earley ------------------------------
(* The chart algorithm of the parser, step by step, against the declarative *)
(* notion of derivation, for all small grammars and texts.                  *)
(*                                                                          *)
(* Symbols: terminal "a"; non-terminals "S" (start) and "X".  A grammar     *)
(* maps a non-terminal to a sequence of productions, best first; a          *)
(* production is a sequence of symbols.                                     *)
(* An item is [nt, p, dot, st, kids]; kids are trees of what is recognized  *)
(* already: [nt, p, st, en, kids], or [nt |-> "a", ...] for a token.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS SProds, XProds,   \* number of productions allowed
          Lengths,          \* lengths of texts
          EmptyFix,         \* complete with empty items that were there before the item
          CycleCut          \* drop derivations that contain themselves over the same run

Syms == {"a", "S", "X"}
Prods == { <<>> } \cup { <<x>> : x \in Syms } \cup { <<x, y>> : x \in Syms, y \in Syms }
\* productions of a non-terminal: no repetition (the same alternative twice counts once)
Alternatives(n) == UNION { { s \in [1..k -> Prods] : \A i, j \in 1..k : i # j => s[i] # s[j] } : k \in 1..n }

VARIABLES g, len, all,      \* grammar, length of the text, start everywhere?
          cols,             \* columns: sequences of items
          ci, k,            \* current column (0..len) and item in it
          pc
vars == <<g, len, all, cols, ci, k, pc>>

NT(x) == x # "a"
Done(it) == it.dot = Len(g[it.nt][it.p])
NextSym(it) == g[it.nt][it.p][it.dot + 1]
TreeOf(it, en) == [nt |-> it.nt, p |-> it.p, st |-> it.st, en |-> en, kids |-> it.kids]
Token(i) == [nt |-> "a", p |-> 0, st |-> i, en |-> i + 1, kids |-> <<>>]
Range(s) == { s[i] : i \in 1..Len(s) }

\* is the non-terminal of the tree found below it over the same run?
RECURSIVE Below(_, _, _, _)
Below(x, st, en, kids) == \E i \in 1..Len(kids) :
  LET t == kids[i] IN
  t.st = st /\ t.en = en /\ t.nt # "a" /\ (t.nt = x \/ Below(x, st, en, t.kids))
Cyclic(it, en) == Below(it.nt, it.st, en, it.kids)
\* a completed item over no tokens at all is cyclic if it contains itself
Cut(it, en) == CycleCut /\ Cyclic(it, en)

RECURSIVE AddAll(_, _)
AddAll(col, its) == IF its = <<>> THEN col
                    ELSE AddAll(IF Head(its) \in Range(col) THEN col ELSE Append(col, Head(its)), Tail(its))
Predicted(x, c) == [q \in 1..Len(g[x]) |-> [nt |-> x, p |-> q, dot |-> 0, st |-> c, kids |-> <<>>]]
Advance(it, t) == [it EXCEPT !.dot = @ + 1, !.kids = Append(@, t)]
\* items that wait for non-terminal x in a column, advanced over tree t
Waiting(col, x, t) == SelectSeq([i \in 1..Len(col) |->
                         IF ~Done(col[i]) /\ NextSym(col[i]) = x THEN Advance(col[i], t) ELSE [nt |-> "none"]],
                       LAMBDA it : it.nt # "none")
Kept(its, en) == SelectSeq(its, LAMBDA it : ~(Done(it) /\ Cut(it, en)))

Init ==
  /\ g \in { [S |-> s, X |-> x] : s \in Alternatives(SProds), x \in Alternatives(XProds) }
  /\ len \in Lengths /\ all \in BOOLEAN
  /\ cols = [c \in 0..len |-> <<>>]
  /\ ci = 0 /\ k = 0 /\ pc = "start"

Start == /\ pc = "start"
         /\ cols' = IF ci = 0 \/ all THEN [cols EXCEPT ![ci] = AddAll(@, Predicted("S", ci))] ELSE cols
         /\ k' = 1 /\ pc' = "scan"
         /\ UNCHANGED <<g, len, all, ci>>

Complete(it) ==
  LET t == TreeOf(it, ci) IN
  cols' = [cols EXCEPT ![ci] = AddAll(@, Kept(Waiting(cols[it.st], it.nt, t), ci))]

Predict(it) ==
  LET x == NextSym(it)
      c1 == AddAll(cols[ci], Predicted(x, ci))
      \* items completed over nothing before this item was added
      empties == SelectSeq(cols[ci], LAMBDA e : e.nt = x /\ Done(e) /\ e.st = ci)
      its == [e \in 1..Len(empties) |-> Advance(it, TreeOf(empties[e], ci))]
  IN cols' = [cols EXCEPT ![ci] = IF EmptyFix THEN AddAll(c1, Kept(its, ci)) ELSE c1]

Step == /\ pc = "scan" /\ k <= Len(cols[ci])
        /\ LET it == cols[ci][k] IN
           IF Done(it) THEN Complete(it)
           ELSE IF NT(NextSym(it)) THEN Predict(it)
           ELSE cols' = IF ci < len THEN [cols EXCEPT ![ci + 1] = AddAll(@, <<Advance(it, Token(ci))>>)] ELSE cols
        /\ k' = k + 1
        /\ UNCHANGED <<g, len, all, ci, pc>>

NextColumn == /\ pc = "scan" /\ k > Len(cols[ci])
              /\ IF ci < len THEN ci' = ci + 1 /\ pc' = "start" /\ k' = 0
                 ELSE pc' = "done" /\ UNCHANGED <<ci, k>>
              /\ UNCHANGED <<g, len, all, cols>>

Next == Start \/ Step \/ NextColumn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* Derivations, declaratively.  vis: non-terminals being derived over this  *)
(* very run.                                                                *)
RECURSIVE Der(_, _, _, _)
RECURSIVE Seqs(_, _, _, _, _)
Der(x, i, j, vis) ==
  IF x = "a" THEN (IF j = i + 1 THEN {Token(i)} ELSE {})
  ELSE IF x \in vis THEN {}
  ELSE UNION { { [nt |-> x, p |-> q, st |-> i, en |-> j, kids |-> s]
                 : s \in Seqs(g[x][q], i, j, i, vis \cup {x}) } : q \in 1..Len(g[x]) }
\* symbols over <<m, j>>, part of a production over <<i, j>>
Seqs(ss, i, j, m, vis) ==
  IF ss = <<>> THEN (IF m = j THEN {<<>>} ELSE {})
  ELSE IF Len(ss) = 1
       THEN { <<t>> : t \in Der(ss[1], m, j, IF m = i THEN vis ELSE {}) }
       ELSE UNION { { <<t>> \o r : t \in Der(ss[1], m, e, IF m = i /\ e = j THEN vis ELSE {}),
                                   r \in Seqs(Tail(ss), i, j, e, vis) } : e \in m..j }

Found(i, j) == { TreeOf(it, j) : it \in { it \in Range(cols[j]) : it.nt = "S" /\ it.st = i /\ Done(it) } }

\* does any non-terminal derive itself over the same run?
Nullable(x) == x # "a" /\ Der(x, 0, 0, {}) # {}
Unit(x) == { y \in {"S", "X"} : \E q \in 1..Len(g[x]) : \E i \in 1..Len(g[x][q]) :
               g[x][q][i] = y /\ \A l \in 1..Len(g[x][q]) : l # i => Nullable(g[x][q][l]) }
SelfDeriving == \E x \in {"S", "X"} : x \in Unit(x) \/ \E y \in Unit(x) : x \in Unit(y)

----------------------------------------------------------------------------
\* every completed item is a derivation of its run
RECURSIVE Good(_)
Good(t) == IF t.nt = "a" THEN t.en = t.st + 1 /\ t.kids = <<>>
           ELSE /\ Len(t.kids) = Len(g[t.nt][t.p])
                /\ \A i \in 1..Len(t.kids) : t.kids[i].nt = g[t.nt][t.p][i] /\ Good(t.kids[i])
                /\ \A i \in 1..(Len(t.kids)-1) : t.kids[i].en = t.kids[i+1].st
                /\ IF t.kids = <<>> THEN t.st = t.en ELSE t.kids[1].st = t.st /\ t.kids[Len(t.kids)].en = t.en

Sound == pc = "done" => \A c \in 0..len : \A it \in Range(cols[c]) : Done(it) => Good(TreeOf(it, c))
Starts == IF all THEN 0..len ELSE {0}
Complete_ == pc = "done" => \A i \in Starts : \A j \in i..len :
                Der("S", i, j, {}) \subseteq Found(i, j)
Exact == pc = "done" /\ ~SelfDeriving => \A i \in Starts : \A j \in i..len : Found(i, j) = Der("S", i, j, {})
Once == \A c \in 0..len : Cardinality(Range(cols[c])) = Len(cols[c])
Bounded == \A c \in 0..len : Len(cols[c]) < 2000
Terminates == <>(pc = "done")
=============================================================================
