----------------------------- MODULE EarleyGen -----------------------------
(* All grammars of Earley, as rules to be built from the constructors.      *)
EXTENDS Earley, Json
GInit == /\ Init /\ all = FALSE
         \* X is used, or else it does not matter
         /\ \/ \E p \in 1..Len(g["S"]) : "X" \in Range(g["S"][p])
            \/ g["X"] = << <<>> >>
GNext == UNCHANGED vars
GSpec == GInit /\ [][GNext]_vars

Alt(x, p) == LET ss == g[x][p] IN
  [name |-> "@" \o x \o ToString(p),
   items |-> [i \in 1..Len(ss) |-> IF ss[i] = "a" THEN [p |-> [p |-> "eq", v |-> "a"]] ELSE [r |-> ss[i]]]]
Emit == PrintT("HIST " \o ToJson([S |-> [p \in 1..Len(g["S"]) |-> Alt("S", p)], X |-> [p \in 1..Len(g["X"]) |-> Alt("X", p)], n |-> len]))
=============================================================================
