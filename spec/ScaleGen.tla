------------------------------ MODULE ScaleGen -----------------------------
(* Prints the rules of YScale with texts of given lengths to be parsed.     *)
EXTENDS YScale, Json
CONSTANTS MatchN, CoverN, RunsN, Bounds, AltBounds, WorkN, WorkSteps
VARIABLE c
BoundsOf(sh) == CASE sh \notin Bounded_ -> {2}
                  [] sh = "opts" -> { b \in Bounds : b < 6 }
                  [] sh = "digits" -> Bounds \cup {19, 4301, 9000}
                  [] sh = "vocab" -> Bounds \cup {200}
                  [] sh \in {"alts", "chain", "wide"} -> AltBounds
                  [] OTHER -> Bounds
Specs == { s \in [sh : Shapes, b : Bounds \cup AltBounds \cup {2, 19, 200, 4301, 9000}] : s.b \in BoundsOf(s.sh) }
Case_(s, do, n) == [sh |-> s.sh, b |-> s.b, do |-> do, n |-> n, N |-> Shape_(s), root |-> Root(s), rels |-> Rels, CL |-> CLs,
                    lex |-> Lex, words |-> [k \in 1..n |-> WordAt(s, n, k)]]
\* the longest match, and one more (or less)
Near(s, n) == CASE s.sh \in {"alts", "chain"} -> 1..2
                [] s.sh \in {"digits", "vocab"} -> 1..3
                [] s.sh = "opts" -> (s.b - 1)..(s.b + 1)
                [] s.sh \in {"wide", "max", "phrases", "caseless", "morph"} -> (s.b - 1)..(s.b + 1)
                [] s.sh = "minmax" -> {s.b - 1, s.b, 2 * s.b, 2 * s.b + 1}
                [] s.sh = "skip" -> {1, 2}
                [] s.sh = "self" -> { 3, 12 }
                [] s.sh = "agree" -> { 3, 60 }
                [] OTHER -> { n, n + 1 }
Cases_ == { Case_(s, "match", n) : s \in Specs, n \in MatchN } \cup UNION { { Case_(s, "match", n) : n \in Near(s, Max(MatchN)) } : s \in Specs }
     \cup { Case_(s, "cover", n) : s \in { s \in Specs : s.sh # "self" }, n \in CoverN }
     \cup { Case_(s, "runs", n) : s \in { s \in Specs : s.sh # "self" }, n \in RunsN }
     \cup { [Case_(s, "work", n) EXCEPT !.words = [k \in 1..(WorkSteps + 1) |-> [l \in 1..(n * 2^(k-1)) |-> WordAt(s, n * 2^(k-1), l)]]]
            : s \in { s \in Specs : (s.sh \notin Ambiguous_ \/ s.sh = "alts") /\ s.sh \notin {"digits", "vocab"} }, n \in WorkN }
     \cup { Case_([sh |-> "skip", b |-> 2], "cover", 3000) }
Init == c \in Cases_
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("HIST " \o ToJson(c))
=============================================================================
