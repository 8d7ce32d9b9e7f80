------------------------------ MODULE TokTrace ------------------------------
(* Histories of tokenizers: creation, addition of rules, removal of types,  *)
(* use.  Each recorded event must be an action of this machine.             *)
(*                                                                          *)
(* event [op "new", t]                 a tokenizer with the default rules   *)
(*       [op "make", t, rules]         a tokenizer with given rules         *)
(*       [op "add", t, rules]                                               *)
(*       [op "remove", t, types, err]  err: an error was reported           *)
(*       [op "check", t, ty, err]                                           *)
(*       [op "run", t, text, toks, err] toks: [st, en, ty, v]               *)
EXTENDS YTok, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.YCASES)

VARIABLES id, l, rules, bad, runs, toks
vars == <<id, l, rules, bad, runs, toks>>

Ev == Traces[id].ev[l]
Empty == [t \in {} |-> <<>>]
Init == /\ id \in 1..Len(Traces) /\ l = 1 /\ rules = Empty /\ bad = <<>> /\ runs = 0 /\ toks = 0

Live == l <= Len(Traces[id].ev) /\ bad = <<>>
Is(op) == Live /\ Ev.op = op
Say(verdict) == /\ bad' = verdict
                /\ l' = l + 1
                /\ UNCHANGED id
Quiet == UNCHANGED <<runs, toks>>

New    == Is("new")  /\ rules' = (Ev.t :> DefaultRules) @@ rules /\ Say(<<>>) /\ Quiet
Make   == Is("make") /\ rules' = (Ev.t :> Ev.rules) @@ rules /\ Say(<<>>) /\ Quiet
Add    == Is("add")  /\ rules' = [rules EXCEPT ![Ev.t] = Ev.rules \o @] /\ Say(<<>>) /\ Quiet
RemoveTypes ==
  /\ Is("remove")
  /\ LET known == Range(Ev.types) \subseteq Types(rules[Ev.t]) IN
     /\ Say(IF Ev.err = ~known THEN <<>> ELSE <<"removal">>)
     /\ rules' = IF known THEN [rules EXCEPT ![Ev.t] = SelectSeq(@, LAMBDA r : r.ty \notin Range(Ev.types))] ELSE rules
  /\ Quiet
CheckType ==
  /\ Is("check")
  /\ Say(IF Ev.err = (Ev.ty \notin Types(rules[Ev.t])) THEN <<>> ELSE <<"type check">>)
  /\ UNCHANGED rules /\ Quiet
Run ==
  /\ Is("run")
  /\ LET want == Tokens(rules[Ev.t], Ev.text)
         got == Ev.toks
         n == Len(got)
         same == Ev.err = "" /\ n = Len(want) /\ \A k \in 1..n :
                    /\ got[k].st = want[k].st /\ got[k].en = want[k].en
                    /\ got[k].ty = want[k].ty /\ got[k].v = want[k].v
     IN /\ Say(IF same THEN <<>> ELSE <<"tokens">>)
        /\ runs' = runs + 1 /\ toks' = toks + Len(want)
  /\ UNCHANGED rules
Done == /\ l <= Len(Traces[id].ev) + 1
        /\ (bad # <<>> \/ l = Len(Traces[id].ev) + 1)
        /\ PrintT(<<"RES", Traces[id].id, bad, runs, toks, TRUE>>)
        /\ l' = Len(Traces[id].ev) + 2
        /\ UNCHANGED <<id, rules, bad, runs, toks>>

Next == New \/ Make \/ Add \/ RemoveTypes \/ CheckType \/ Run \/ Done
Spec == Init /\ [][Next]_vars

\* the design keeps what it promises on every text that is run
Promises ==
  (Live /\ Ev.op = "run") =>
     LET ts == Tokens(rules[Ev.t], Ev.text) IN
     /\ Ordered(ts) /\ Faithful(ts, Ev.text) /\ NothingLost(rules[Ev.t], ts, Ev.text)
     /\ (rules[Ev.t] = DefaultRules => OnlySpaceSkipped(ts, Ev.text))
=============================================================================
