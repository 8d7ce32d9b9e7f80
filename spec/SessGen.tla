------------------------------ MODULE SessGen -------------------------------
(* Generates the histories that are replayed in the code: every history of  *)
(* Depth actions (exhaustive), or random longer ones (-simulate).           *)
EXTENDS Sess, Json
CONSTANTS Depth, Parsers, Iters, Texts, Roots, Envs, MaxExtra, MaxVer
VARIABLE hist
gvars == <<parsers, iters, ver, extra, seen, hist>>

Do(a, ev) == Len(hist) < Depth /\ a /\ hist' = Append(hist, ev)

Observing == {"match", "findall", "find", "extract", "step", "reread"}
GInit == SInit /\ hist = <<>>
GNext ==
  \/ \E p \in Parsers, r \in Roots \cup {10 + x : x \in 1..extra}, e \in Envs :
        Do(NewParser(p, r, e), [op |-> "new", p |-> p, root |-> r, env |-> e])
  \/ \E r \in Roots : Do(Inspect, [op |-> "list", root |-> r])
  \/ \E r \in Roots : Do(Inspect, [op |-> "draw", root |-> r])
  \/ extra < MaxExtra /\ Do(Compose, [op |-> "compose"])
  \/ ver < MaxVer /\ Do(Redefine, [op |-> "redefine"])
  \/ \E p \in DOMAIN parsers, t \in Texts, m \in {"match", "findall", "find", "extract"} :
        Do(Parse(p, 1), [op |-> m, p |-> p, t |-> t])
  \/ \E i \in Iters \ DOMAIN iters, p \in DOMAIN parsers, t \in Texts :
        Do(Open(i, p, t), [op |-> "open", i |-> i, p |-> p, t |-> t])
  \/ \E i \in DOMAIN iters : Do(Advance(i, 1), [op |-> "step", i |-> i])
  \/ \E i \in DOMAIN iters : Do(Abandon(i), [op |-> "abandon", i |-> i])
  \/ Do(Reread, [op |-> "reread"])
GSpec == GInit /\ [][GNext]_gvars

\* histories worth replaying: complete and ending with an observation
Emit == Len(hist) = Depth => (hist[Depth].op \in Observing => PrintT("HIST " \o ToJson(hist)))
=============================================================================
