---------------------------- MODULE MCIntegrator ----------------------------
(* Exhaustive exploration of all schemes, strategies and failure patterns.  *)
EXTENDS Integrator, Json
CONSTANTS Chosen, NRanks
Confs == [scheme : Chosen, strategy : {"none", "bang bang control"},
          cflmax : {<<9, 10>>}, cflmin : {<<9, 20>>, <<1, 4>>},
          tmax : {<<0, 1>>, <<1, 2>>, <<30, 1>>}, ranks : {0..(NRanks-1)}]
VARIABLE script
MCInit == \E c \in Confs : InitFor(c, <<1, 1>>) /\ script = <<>>
MCNext ==
  \/ (DoPrep \/ DoSadd \/ DoRet) /\ UNCHANGED script
  \/ \E F \in SUBSET conf.ranks :
        DoHyp(F) /\ script' = IF F = {} THEN script ELSE Append(script, <<sweep, F>>)
  \/ \E F \in {{}, conf.ranks} :
        DoPar(F) /\ script' = IF F = {} THEN script ELSE Append(script, <<-(pcall + 1), F>>)
  \/ Done /\ UNCHANGED <<vars, script>>
(* at most two distinct moments of failure per step (keeps it exhaustive)   *)
Bound == Len(script) <= 2
Scenario == [scheme |-> conf.scheme, strategy |-> conf.strategy, cflmin |-> conf.cflmin,
             tmax |-> conf.tmax, script |-> script]
Emit == Done => PrintT("SCEN " \o ToJson(Scenario))
=============================================================================
