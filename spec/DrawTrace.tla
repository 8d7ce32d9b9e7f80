------------------------------ MODULE DrawTrace -----------------------------
(* Drawings (DOT) of rules, of listed grammars and of derivations.          *)
(*                                                                          *)
(* obs: dot [ok, nodes <<[id, lab]>>, edges <<[a, b, st]>>]: what a reader   *)
(*      of the DOT language sees; st: "" plain, "main", "dashed:label" or   *)
(*      anything else                                                       *)
(* kind "rule": N, root, rels (see YParse)                                  *)
(* kind "tree": parts <<[lab, ch (parts by index), rel]>>, parts[1] the     *)
(*      root; rel: number of the relation object or 0; rlab: their labels   *)
EXTENDS YLabel, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)

----------------------------------------------------------------------------
(* The graph of a rule: rules, productions <<"prod", n>>, predicates.       *)
PartOf(c, n, k) == LET it == c.N[n].items[k] IN
  IF Has(it, "r") THEN <<"n", it.r>>
  ELSE IF Has(it, "pid") /\ ~(Has(it, "bare") /\ it.bare /\ it.p.p = "eq") THEN <<"p", it.pid>>
  ELSE <<"t", n, k>>
PartPred(c, x) ==
  IF x[1] = "t" THEN c.N[x[2]].items[x[3]].p
  ELSE LET n == CHOOSE n \in 1..Len(c.N) : c.N[n].k = "rule" /\ \E k \in 1..Len(c.N[n].items) : PartOf(c, n, k) = x
       IN c.N[n].items[CHOOSE k \in 1..Len(c.N[n].items) : PartOf(c, n, k) = x].p
Lab(c, x) == IF x[1] = "n" THEN NLabel(c, x[2]) ELSE IF x[1] = "prod" THEN "Production" ELSE PLabel(PartPred(c, x))
Below(c, x) ==
  IF x[1] = "n" THEN
    LET nd == c.N[x[2]] IN
    CASE nd.k = "rule" -> << [to |-> <<"prod", x[2]>>, st |-> ""] >>
      [] nd.k = "or"   -> [k \in 1..Len(nd.rs) |-> [to |-> <<"n", nd.rs[k]>>, st |-> ""]]
      [] nd.k \in {"empty", "pipe"} -> <<>>
      [] OTHER         -> << [to |-> <<"n", nd.r>>, st |-> ""] >>
  ELSE IF x[1] = "prod" THEN
    [k \in 1..Len(c.N[x[2]].items) |->
       [to |-> PartOf(c, x[2], k), st |-> IF c.N[x[2]].main = k /\ k > 1 THEN "main" ELSE ""]]
  ELSE <<>>

\* drawn graph
NodeIds(d) == { d.nodes[k].id : k \in 1..Len(d.nodes) }
LabelOf(d, i) == d.nodes[CHOOSE k \in 1..Len(d.nodes) : d.nodes[k].id = i].lab
Out(d, i) == SelectSeq(d.edges, LAMBDA e : e.a = i)
Arrows(d, i) == SelectSeq(d.edges, LAMBDA e : e.a = i /\ e.st \in {"", "main"})

(* Walk both graphs from their roots in step: pairs of a part and the node  *)
(* that shows it.                                                           *)
RECURSIVE Together(_, _, _, _)
Together(P, d, todo, seen) ==   \* P(x): sequence of [to, st] below x
  LET fresh == todo \ seen IN
  IF fresh = {} THEN seen
  ELSE Together(P, d,
         UNION { LET b == P[x[1]]  o == Arrows(d, x[2]) IN
                 { <<b[k].to, o[k].b>> : k \in 1..MinI(Len(b), Len(o)) } : x \in fresh },
         seen \cup fresh)

Wellformed(d) == /\ d.ok
                 /\ NoDup([k \in 1..Len(d.nodes) |-> d.nodes[k].id])
                 /\ \A k \in 1..Len(d.edges) : d.edges[k].a \in NodeIds(d) /\ d.edges[k].b \in NodeIds(d)
Roots(d) == { i \in NodeIds(d) : i = d.nodes[1].id }

\* parts reachable from the root
RECURSIVE Reachable(_, _)
Reachable(F, S) == LET S2 == S \cup UNION { { F[x][k].to : k \in 1..Len(F[x]) } : x \in S } IN IF S2 = S THEN S ELSE Reachable(F, S2)

Same(F, lab, root, d, extra) ==
  LET parts == Reachable(F, {root})
      R == Together(F, d, {<<root, d.nodes[1].id>>}, {})
      shown == { x[2] : x \in R } IN
  IF ~Wellformed(d) THEN <<"not a drawing">>
  ELSE IF Cardinality(R) # Cardinality(parts) \/ { x[1] : x \in R } # parts \/ Cardinality(shown) # Cardinality(R)
          \/ shown # NodeIds(d)
       THEN <<"not one node for each part">>
  ELSE IF \E x \in R : LabelOf(d, x[2]) # lab[x[1]] THEN <<"wrong label">>
  ELSE IF \E x \in R : LET o == Arrows(d, x[2]) IN
            \/ Len(o) # Len(F[x[1]])
            \/ \E k \in 1..Len(o) : o[k].st # F[x[1]][k].st \/ <<F[x[1]][k].to, o[k].b>> \notin R
       THEN <<"arrows differ">>
  ELSE LET xs == SelectSeq(d.edges, LAMBDA e : e.st \notin {"", "main"})
           look(e) == << {e.a, e.b}, e.st >>
           node(p) == CHOOSE i \in shown : <<p, i>> \in R
           due == [k \in 1..Len(extra) |-> << {node(extra[k][1]), node(extra[k][2])}, extra[k][3] >>]
       IN IF SameBag([k \in 1..Len(xs) |-> look(xs[k])], due) THEN <<>> ELSE <<"lines of relations differ">>

RuleParts(c) ==
  LET ns == { <<"n", n>> : n \in 1..Len(c.N) }
      ps == { <<"prod", n>> : n \in { n \in 1..Len(c.N) : c.N[n].k = "rule" } }
      ts == UNION { { PartOf(c, n[2], k) : k \in 1..Len(c.N[n[2]].items) } : n \in ps }
  IN ns \cup ps \cup ts

JudgeRule(c) ==
  LET X == RuleParts(c) IN
  Same(TLCEval([x \in X |-> Below(c, x)]), TLCEval([x \in X |-> Lab(c, x)]), <<"n", c.root>>, c.dot, <<>>)

Pairs(c) == { xy \in (1..Len(c.parts)) \X (1..Len(c.parts)) :
              xy[1] < xy[2] /\ c.parts[xy[1]].rel # 0 /\ c.parts[xy[1]].rel = c.parts[xy[2]].rel }
JudgeTree(c) ==
  Same([x \in 1..Len(c.parts) |-> [k \in 1..Len(c.parts[x].ch) |-> [to |-> c.parts[x].ch[k], st |-> ""]]],
       [x \in 1..Len(c.parts) |-> c.parts[x].lab], 1, c.dot,
       LET s == SetToSeq(Pairs(c)) IN [k \in 1..Len(s) |-> <<s[k][1], s[k][2], "dashed:" \o c.rlab[c.parts[s[k][1]].rel]>>])

Verdict(c) ==
  IF c.err # "" THEN <<"error">>
  ELSE IF c.changed THEN <<"drawing changed something">>
  ELSE IF c.dot.ok /\ Len(c.dot.nodes) = 0 THEN <<"empty drawing">>
  ELSE IF ~c.dot.ok THEN <<"not a valid drawing">>
  ELSE IF c.kind = "rule" THEN JudgeRule(c) ELSE JudgeTree(c)

VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), IF Obs[id].err = "" THEN Len(Obs[id].dot.nodes) ELSE 0, 0, TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
