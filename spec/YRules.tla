------------------------------- MODULE YRules ------------------------------
(* Rules and their derivations.                                             *)
(*                                                                          *)
(* A rule set is a sequence N of nodes; a node refers to others by index    *)
(* (sharing and recursion are therefore explicit).                          *)
(*   [k "rule", items, main]    items: <<[p predicate] or [r node]>>        *)
(*                              main: index of the item marked main, or 0   *)
(*   [k "or", rs]               alternatives, best first                    *)
(*   [k "opt", r, rev]  [k "rep", r, rev]                                   *)
(*   [k "bnd", r, lo, hi, rev]  lo >= 1; hi = 0 when there is no upper bound*)
(*   [k "named", r, name]  [k "int", r, f]  [k "rel", r, rid]  [k "fwd", r] *)
(*   [k "empty"]                                                            *)
(*   [k "pipe", kind, ph]       ph: phrases, [text, ws words]               *)
(*                                                                          *)
(* A derivation is [key, tr].  key is the sequence of choices made by the   *)
(* derivation, from left to right, outermost first: derivations of one node *)
(* over one run of tokens are preferred in lexicographic order of keys.     *)
(* A tree is [n node (0 token, -1 group made by a quantifier), pos, fs,     *)
(* main, ph, ch].                                                           *)
EXTENDS YPred

IsQuant(nd) == nd.k \in {"opt", "rep", "bnd"}

RECURSIVE Chain(_, _)
Chain(N, n) == IF IsQuant(N[n])
               THEN LET c == Chain(N, N[n].r) IN [qs |-> <<N[n]>> \o c.qs, base |-> c.base]
               ELSE [qs |-> <<>>, base |-> n]

QOpt(rev) == [k |-> "opt", rev |-> rev]
QRep(rev) == [k |-> "rep", rev |-> rev]
QRepOpt(rr, ro) == [k |-> "ropt", rr |-> rr, ro |-> ro]

QBnd(lo, hi, rev) == [k |-> "bnd", lo |-> lo, hi |-> hi, rev |-> rev]
Several(q) == q.k = "bnd" /\ q.lo > 1

(* Directly stacked quantifiers are simplified pairwise, outermost first.   *)
RECURSIVE Squash(_)
Squash(qs) ==
  IF Len(qs) < 2 THEN qs ELSE
  LET q == qs[1]  c == qs[2]  t == SubSeq(qs, 3, Len(qs))
      keep == <<q>> \o Squash(Tail(qs)) IN
  CASE q.k = "rep" /\ c.k = "opt"           -> Squash(<<QRepOpt(q.rev, c.rev)>> \o t)
    [] q.k = "rep" /\ Several(c)            -> keep
    [] q.k = "rep" /\ c.k \in {"rep","bnd"} -> Squash(<<QRep(q.rev)>> \o t)
    [] q.k = "opt" /\ c.k = "rep"           -> Squash(<<QRepOpt(c.rev, q.rev)>> \o t)
    [] q.k = "opt" /\ c.k = "opt"           -> Squash(<<QOpt(q.rev)>> \o t)
    [] q.k = "ropt" /\ Several(c)           -> keep
    [] q.k = "ropt"                         -> Squash(<<q>> \o t)
    [] q.k = "bnd" /\ c.k = "rep" /\ Several(q) /\ q.hi > 0 ->
         LET s == Squash(Tail(qs)) IN
         IF s[1].k = "rep" THEN <<QBnd(q.lo, 0, s[1].rev)>> \o Tail(s) ELSE s
    [] q.k = "bnd" /\ c.k = "rep"           -> Squash(<<QRep(c.rev)>> \o t)
    [] q.k = "bnd" /\ c.k = "opt" /\ Several(q) ->
         IF q.hi = 0 THEN Squash(<<QRepOpt(q.rev, c.rev)>> \o t)
         ELSE Squash(<<QOpt(c.rev), QBnd(1, q.hi, q.rev)>> \o t)
    [] q.k = "bnd" /\ c.k = "opt"           -> Squash(<<QOpt(c.rev), q>> \o t)
    [] OTHER                                -> keep

Leaf(i, p, t)  == [n |-> 0, pos |-> i, fs |-> Narrow(p, t), main |-> 1, ph |-> 0, ch |-> <<>>]
Tree(n, main, ch) == [n |-> n, pos |-> 0, fs |-> <<>>, main |-> main, ph |-> 0, ch |-> ch]
Group(ch) == Tree(-1, 1, ch)

Pfx(rank, D) == { [key |-> <<rank>> \o d.key, tr |-> d.tr] : d \in D }
Wrap(n, D)  == { [key |-> d.key, tr |-> Tree(n, 1, <<d.tr>>)] : d \in D }
\* a derivation of an item followed by a (group) derivation of the rest
Then(A, B)  == { [key |-> a.key \o b.key, tr |-> Group(<<a.tr>> \o b.tr.ch)] : a \in A, b \in B }
Single1(A)      == { [key |-> a.key, tr |-> Group(<<a.tr>>)] : a \in A }
Nothing     == { [key |-> <<>>, tr |-> Group(<<>>)] }

WordMatches(kind, w, t, nf) ==
  CASE kind = "plain"    -> t.v = w.v
    [] kind = "caseless" -> t.low = w.low
    [] kind = "morph"    -> IF t.m THEN \E k \in 1..Len(t.fs) : t.fs[k].nf \in Range(nf[w.v])
                                   ELSE t.low \in Range(nf[w.v])

PhraseAt(kind, ph, T, i, j, nf) ==
  /\ Len(ph.ws) = j - i
  /\ \A k \in 1..(j-i) : WordMatches(kind, ph.ws[k], T[i+k], nf)

(* Runs of tokens are half-open: <<i, j>> covers tokens i+1..j.             *)
(* memo[len+1][i+1][n][l+1]: derivations over <<i, i+len>> of node n (l = 0) *)
(* or of its repetition once the required occurrences are there (l = number *)
(* of quantifiers from there inwards).  len: length of the runs being       *)
(* derived now.  vis: what is being derived over this very run already      *)
(* (a derivation never contains itself over the same tokens).               *)
(* C = [N, T, nf, SQ]; SQ[n] the simplified quantifiers of node n           *)
RECURSIVE D(_, _, _, _, _, _, _)
RECURSIVE Items(_, _, _, _, _, _, _, _)
RECURSIVE Q(_, _, _, _, _, _, _, _)
RECURSIVE Times(_, _, _, _, _, _, _, _, _, _)
RECURSIVE Again(_, _, _, _, _, _, _, _)

\* derivations of node n over <<i,j>>
D(C, memo, len, n, i, j, vis) ==
  IF j - i < len THEN memo[j-i+1][i+1][n][1]
  ELSE IF <<n, 0>> \in vis THEN {}
  ELSE
    LET nd == C.N[n]  v2 == vis \cup {<<n, 0>>} IN
    CASE nd.k = "rule" ->
           { [key |-> d.key, tr |-> Tree(n, IF nd.main = 0 THEN 1 ELSE nd.main, d.tr.ch)]
             : d \in Items(C, memo, len, nd.items, 1, i, j, v2) }
      [] nd.k = "or" ->
           UNION { { [key |-> <<a>> \o d.key, tr |-> Tree(n, 1, <<d.tr>>)]
                     : d \in D(C, memo, len, nd.rs[a], i, j, v2) } : a \in 1..Len(nd.rs) }
      [] nd.k = "empty" -> IF i = j THEN { [key |-> <<>>, tr |-> Tree(n, 1, <<>>)] } ELSE {}
      [] nd.k \in {"named", "int", "rel", "fwd"} -> Wrap(n, D(C, memo, len, nd.r, i, j, v2))
      [] nd.k = "pipe" ->
           { [key |-> <<a>>,
              tr |-> [Tree(n, 1, [k \in 1..(j-i) |-> Leaf(i+k, [p |-> "true"], C.T[i+k])]) EXCEPT !.ph = a]]
             : a \in { a \in 1..Len(nd.ph) : i < j /\ PhraseAt(nd.kind, nd.ph[a], C.T, i, j, C.nf) } }
      [] IsQuant(nd) ->
           { [key |-> d.key, tr |-> Tree(n, 1, <<d.tr>>)]
             : d \in Q(C, memo, len, n, C.SQ[n].qs, i, j, v2) }

\* items k.. of a production; the result is a group of the items' trees
Items(C, memo, len, items, k, i, j, vis) ==
  IF k > Len(items) THEN IF i = j THEN Nothing ELSE {}
  ELSE
    LET it == items[k] IN
    IF Has(it, "p")
    THEN IF i < j /\ Holds(it.p, C.T[i+1], C.nf)
         THEN Then({ [key |-> <<>>, tr |-> Leaf(i+1, it.p, C.T[i+1])] },
                   Items(C, memo, len, items, k+1, i+1, j, vis))
         ELSE {}
    ELSE UNION { LET A == D(C, memo, len, it.r, i, m, vis) IN
                 IF A = {} THEN {} ELSE Then(A, Items(C, memo, len, items, k+1, m, j, vis))
                 : m \in IF k = Len(items) THEN {j} ELSE i..j }

\* quantifiers qs (outermost first) applied to the base of quantified node n
Q(C, memo, len, n, qs, i, j, vis) ==
  IF qs = <<>> THEN D(C, memo, len, C.SQ[n].base, i, j, vis)
  ELSE
    LET q == qs[1] IN
    CASE q.k = "opt" ->
           LET E == IF i = j THEN Nothing ELSE {}
               I == Single1(Q(C, memo, len, n, Tail(qs), i, j, vis)) IN
           IF q.rev THEN Pfx(1, I) \cup Pfx(2, E) ELSE Pfx(1, E) \cup Pfx(2, I)
      [] q.k \in {"rep", "ropt"} -> Again(C, memo, len, n, qs, i, j, vis)
      [] q.k = "bnd" -> Times(C, memo, len, n, qs, i, j, vis, q.lo, q.hi)

\* any number of occurrences, at least one (or none, for ropt)
Again(C, memo, len, n, qs, i, j, vis) ==
  IF j - i < len THEN memo[j-i+1][i+1][n][Len(qs)+1]
  ELSE IF <<n, Len(qs)>> \in vis THEN {}
  ELSE
    LET q == qs[1]
        W == vis \cup {<<n, Len(qs)>>}
        more == UNION { LET A == Q(C, memo, len, n, Tail(qs), i, m, W) IN
                        IF A = {} THEN {} ELSE Then(A, Again(C, memo, len, n, qs, m, j, W))
                        : m \in i..j }
        stop == Single1(Q(C, memo, len, n, Tail(qs), i, j, W))
    IN IF q.k = "ropt"
       THEN LET E == IF i = j THEN Nothing ELSE {}
                P(e, a, b) == Pfx(e, E) \cup Pfx(a, more) \cup Pfx(b, stop) IN
            CASE ~q.rr /\ ~q.ro -> P(1, 2, 3)
              [] q.rr /\ ~q.ro  -> P(1, 3, 2)
              [] ~q.rr /\ q.ro  -> P(3, 1, 2)
              [] q.rr /\ q.ro   -> P(3, 2, 1)
       ELSE IF q.rev THEN Pfx(1, stop) \cup Pfx(2, more) ELSE Pfx(1, more) \cup Pfx(2, stop)

\* need: occurrences still required; left: occurrences still allowed (0 = any number)
Times(C, memo, len, n, qs, i, j, vis, need, left) ==
  IF need = 1 /\ left = 0 THEN Again(C, memo, len, n, qs, i, j, vis)
  ELSE
    LET q == qs[1]
        l2 == IF left = 0 THEN 0 ELSE left - 1
        more == UNION { LET A == Q(C, memo, len, n, Tail(qs), i, m, vis) IN
                        IF A = {} THEN {} ELSE Then(A, Times(C, memo, len, n, qs, m, j, vis, MaxI(need-1, 1), l2))
                        : m \in i..j }
        stop == Single1(Q(C, memo, len, n, Tail(qs), i, j, vis))
    IN IF need > 1 THEN more
       ELSE IF left = 1 THEN stop
       ELSE IF q.rev THEN Pfx(1, stop) \cup Pfx(2, more) ELSE Pfx(1, more) \cup Pfx(2, stop)

\* does quantifier level l of node n repeat without bound?
Unbounded(q) == q.k \in {"rep", "ropt"} \/ (q.k = "bnd" /\ q.hi = 0)

Levels(C, memo, len, n, i, j) ==
  IF ~IsQuant(C.N[n]) THEN << TLCEval(D(C, memo, len, n, i, j, {})) >>
  ELSE LET qs == C.SQ[n].qs IN
       [l \in 1..(Len(qs)+1) |->
          IF l = 1 THEN TLCEval(D(C, memo, len, n, i, j, {}))
          ELSE LET r == SubSeq(qs, Len(qs) - l + 2, Len(qs)) IN
               IF Unbounded(r[1]) THEN TLCEval(Again(C, memo, len, n, r, i, j, {})) ELSE {} ]

\* derivations of all nodes over all runs, shorter runs first
RECURSIVE Build(_, _, _)
Build(C, len, memo) ==
  IF len > Len(C.T) THEN memo
  ELSE Build(C, len + 1,
             TLCEval(Append(memo,
               TLCEval([i \in 1..(Len(C.T) - len + 1) |->
                  TLCEval([n \in 1..Len(C.N) |-> TLCEval(Levels(C, memo, len, n, i - 1, i - 1 + len))])]))))

Prepared(N, T, nf) ==
  [N |-> N, T |-> T, nf |-> nf,
   SQ |-> TLCEval([n \in 1..Len(N) |->
             IF IsQuant(N[n]) THEN LET c == Chain(N, n) IN [qs |-> Squash(c.qs), base |-> c.base]
             ELSE [qs |-> <<>>, base |-> n]])]

AllDerivations(C) == Build(C, 0, <<>>)
DerivationsOf(memo, n, i, j) == memo[j-i+1][i+1][n][1]

Ranked(DS) == SetToSortSeq(DS, LAMBDA a, b : LexLess(a.key, b.key))
=============================================================================
