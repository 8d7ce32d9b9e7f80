------------------------------ MODULE SessTrace -----------------------------
(* Recorded sessions of the implementation, checked event by event against  *)
(* the session machine (Sess) with the meaning of rules (YParse).           *)
(*                                                                          *)
(* trace [id, chk, N, texts, T (env, text), rels, nf (env), CL, ev]         *)
(* event [op, ...] as generated by SessGen, with what was observed:         *)
(*   new [p, root, env]  compose [node]  redefine [f, r]  list/draw [res, fresh: *)
(*   the same of rules made anew]                                           *)
(*   match/find/findall/extract [p, t, obs]                                 *)
(*   open [i, p, t]  step [i, res <<match>> or <<>> at the end]  abandon [i]*)
(*   reread [k, res]  log [res]: all matches obtained so far, read again    *)
EXTENDS Sess, YParse, YTag, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.YCASES)

VARIABLES id, l, bad,
          rules,    \* the rules as they are now
          made,     \* parser -> rules it was made from
          rest,     \* iterator -> matches still to come (how they look); "open" when left open
          log,      \* matches observed, in order
          runs
vars == <<parsers, iters, ver, extra, seen, id, l, bad, rules, made, rest, log, runs>>

Tr == Traces[id]
Ev == Tr.ev[l]
TInit == /\ SInit /\ id \in 1..Len(Traces) /\ l = 1 /\ bad = <<>> /\ rules = Traces[id].N
         /\ made = NoMap /\ rest = NoMap /\ log = <<>> /\ runs = 0
Live == l <= Len(Tr.ev) /\ bad = <<>>
Is(op) == Live /\ Ev.op = op
Verdict(v) == bad' = v /\ l' = l + 1 /\ UNCHANGED id

NoObs == [err |-> "", ex |-> <<>>, fa |-> <<>>, fi |-> <<>>, ma |-> <<>>]
TextOf(e, t) == TLCEval(Tagged(Tr.taggers[e], Tr.T[e][t]))
CaseOf(p, t, obs, chk) ==
  [chk |-> chk, T |-> TextOf(parsers[p].env, t), N |-> made[p], root |-> parsers[p].root, nf |-> Tr.nf[parsers[p].env], rels |-> Tr.rels,
   CL |-> Tr.CL, obs |-> obs]
Wanted(S) == SelectSeq(Tr.chk, LAMBDA x : x \in S)
All(o) == o.ex \o o.fa \o o.fi \o o.ma

New == /\ Is("new") /\ NewParser(Ev.p, Ev.root, Ev.env)
       /\ made' = (Ev.p :> rules) @@ made
       /\ Verdict(IF Ev.err = "" THEN <<>> ELSE <<"error">>)
       /\ UNCHANGED <<rules, rest, log, runs>>
Looking == /\ Live /\ Ev.op \in {"list", "draw"} /\ Inspect
           \* a rule looks like one made anew in the same way
           /\ Verdict(IF Ev.err # "" THEN <<"error">> ELSE IF Ev.res # Ev.fresh THEN <<"looks otherwise">> ELSE <<>>)
           /\ UNCHANGED <<rules, made, rest, log, runs>>
Composing == /\ Is("compose") /\ Compose
             /\ rules' = Append(rules, Ev.node)
             /\ Verdict(IF Ev.err = "" THEN <<>> ELSE <<"error">>)
             /\ UNCHANGED <<made, rest, log, runs>>
Redefining == /\ Is("redefine") /\ Redefine
              /\ rules' = [rules EXCEPT ![Ev.f] = [@ EXCEPT !.r = Ev.r]]
              /\ Verdict(IF Ev.err = "" THEN <<>> ELSE <<"error">>)
              /\ UNCHANGED <<made, rest, log, runs>>
Clauses(op) == CASE op = "match"   -> {"shape", "coords", "match", "best", "readings", "lead", "fact", "view"}
                 [] op = "findall" -> {"shape", "coords", "findall", "best", "readings", "lead", "fact", "view"}
                 [] op = "find"    -> {"shape", "coords", "find", "findall"}
                 [] op = "extract" -> {"shape", "coords", "spans", "bag", "fact"}
Parsing == /\ Live /\ Ev.op \in {"match", "find", "findall", "extract"}
           /\ Parse(Ev.p, Len(All(Ev.obs)))
           /\ LET v == Verdicts(CaseOf(Ev.p, Ev.t, Ev.obs, Wanted(Clauses(Ev.op)))) IN
              /\ Verdict(v.bad)
              /\ runs' = runs + v.runs
           /\ log' = log \o All(Ev.obs)
           /\ UNCHANGED <<rules, made, rest>>
Opening == /\ Is("open") /\ Open(Ev.i, Ev.p, Ev.t)
           /\ LET c == CaseOf(Ev.p, Ev.t, NoObs, Tr.chk)
                  E == TLCEval(Expect(c))
                  outs == TLCEval(AllOuts(E))
                  wf == "fact" \in Range(Tr.chk) /\ Plain(outs) IN
              rest' = (Ev.i :> IF LeftOpen(E) \/ Cyclic(c.N, E.memo)
                               THEN [judged |-> FALSE, wf |-> wf, due |-> <<>>]
                               ELSE [judged |-> TRUE, wf |-> wf,
                                     due |-> [k \in 1..Len(outs) |-> LooksO(c, outs[k], wf)]]) @@ rest
           /\ Verdict(IF Ev.err = "" THEN <<>> ELSE <<"error">>)
           /\ UNCHANGED <<rules, made, log, runs>>
\* the next match of an iterator is any match not reported by it before; it ends when there is none
Stepping ==
  /\ Is("step") /\ Advance(Ev.i, Len(Ev.res))
  /\ LET it == iters[Ev.i]
         c == [CaseOf(it.p, it.t, NoObs, Tr.chk) EXCEPT !.T = TextOf(it.env, it.t)]
         R == rest[Ev.i]
         at == IF Ev.res = <<>> THEN {}
               ELSE { k \in 1..Len(R.due) : R.due[k] = LooksM(c, Ev.res[1], R.wf) }
     IN IF Ev.err # "" THEN Verdict(<<"error">>) /\ UNCHANGED rest
        ELSE IF ~R.judged THEN Verdict(<<>>) /\ UNCHANGED rest
        ELSE IF Ev.res = <<>> THEN Verdict(IF R.due = <<>> THEN <<>> ELSE <<"iterator ended early">>) /\ UNCHANGED rest
        ELSE IF at = {} THEN Verdict(<<"unexpected match from iterator">>) /\ UNCHANGED rest
        ELSE Verdict(<<>>) /\ rest' = [rest EXCEPT ![Ev.i].due = RemoveAt(@, Min(at))]
  /\ log' = log \o Ev.res
  /\ runs' = runs + Len(Ev.res)
  /\ UNCHANGED <<rules, made>>
Abandoning == /\ Is("abandon") /\ Abandon(Ev.i)
              /\ Verdict(<<>>)
              /\ UNCHANGED <<rules, made, rest, log, runs>>
Rereading == /\ Is("reread") /\ Reread
             /\ Verdict(IF Ev.k \in 1..Len(log) /\ log[Ev.k] = Ev.res THEN <<>> ELSE <<"match changed">>)
             /\ UNCHANGED <<rules, made, rest, log, runs>>
LogAgain == /\ Is("log") /\ Inspect
            /\ Verdict(IF log = Ev.res THEN <<>> ELSE <<"match changed">>)
            /\ UNCHANGED <<rules, made, rest, log, runs>>
Done == /\ l <= Len(Tr.ev) + 1
        /\ (bad # <<>> \/ l = Len(Tr.ev) + 1)
        /\ PrintT(<<"RES", Tr.id, bad, runs, Len(log), TRUE>>)
        /\ l' = Len(Tr.ev) + 2
        /\ UNCHANGED <<parsers, iters, ver, extra, seen, id, bad, rules, made, rest, log, runs>>

TNext == New \/ Looking \/ Composing \/ Redefining \/ Parsing \/ Opening \/ Stepping \/ Abandoning
         \/ Rereading \/ LogAgain \/ Done
TSpec == TInit /\ [][TNext]_vars
=============================================================================
