----------------------------- MODULE ScaleTrace ----------------------------
(* Long texts and large rules: recorded results against the closed forms.   *)
(* obs [sh, b, n, do, err, got]                                             *)
(*  do "match"/"cover": got matches [ps, names, kept (per word), values]    *)
(*  do "runs": got pairs <<i, j>>, one for every match of extract           *)
(*  do "work": got numbers of calls made on texts of length n, 2n, 4n, ..   *)
EXTENDS YScale, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.YCASES)
VARIABLES id, pc
Init == id \in 1..Len(Obs) /\ pc = "observed"

MatchOk(s, n, i, j, m) ==
  /\ m.ps = [k \in 1..(j - i) |-> i + k]
  /\ m.names = NamesOf(s, n, i, j)
  /\ \A k \in 1..(j - i) : Range(m.kept[k]) = KeptOf(s, n, i, j, i + k)
  /\ m.values = ValuesOf(s, n, i, j)
CountOf(got, r) == Cardinality({ k \in 1..Len(got) : <<got[k][1], got[k][2]>> = r })

Verdict(c) ==
  LET s == [sh |-> c.sh, b |-> c.b] IN
  IF c.err # "" THEN <<"error">>
  ELSE CASE c.do = "match" ->
              IF c.n > 0 /\ Acc(s, c.n, 0, c.n)
              THEN IF Len(c.got) = 1 /\ MatchOk(s, c.n, 0, c.n, c.got[1]) THEN <<>> ELSE <<"match of a long text">>
              ELSE IF c.got = <<>> THEN <<>> ELSE <<"match of a long text">>
         [] c.do = "cover" ->
              LET due == TLCEval(Cover(s, c.n)) IN
              IF Len(c.got) = Len(due) /\ \A k \in 1..Len(due) : MatchOk(s, c.n, due[k][1], due[k][2], c.got[k]) THEN <<>>
              ELSE <<"findall of a long text">>
         [] c.do = "runs" ->
              LET runs == { r \in (0..c.n) \X (0..c.n) : r[1] < r[2] /\ Acc(s, c.n, r[1], r[2]) }
                  got == { <<c.got[k][1], c.got[k][2]>> : k \in 1..Len(c.got) } IN
              IF got # runs THEN <<"runs of a long text">>
              ELSE IF s.sh \notin Ambiguous_ \/ s.sh = "alts"
                   THEN IF \A r \in runs : CountOf(c.got, r) = Ders(s, c.n, r[1], r[2]) THEN <<>> ELSE <<"matches of a long text">>
                   ELSE <<>>
         \* twice the text: at most a polynomial of degree 4 more work
         [] c.do = "work" -> IF \A k \in 1..(Len(c.got) - 1) : c.got[k + 1] <= 20 * c.got[k] THEN <<>> ELSE <<"work grows too fast">>
Judged == /\ pc = "observed" /\ pc' = "judged" /\ UNCHANGED id
          /\ PrintT(<<"RES", Obs[id].id, Verdict(Obs[id]), IF Obs[id].err = "" THEN Len(Obs[id].got) ELSE 0, 0, TRUE>>)
Next == Judged
Spec == Init /\ [][Next]_<<id, pc>>
=============================================================================
