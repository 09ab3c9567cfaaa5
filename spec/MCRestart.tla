------------------------------ MODULE MCRestart ------------------------------
(* Runs that are ended anywhere and resumed, up to MaxResume times: all
   processes together do exactly what one undisturbed process does.          *)
EXTENDS Restart
CONSTANTS MaxResume, Lose, Thorough
VARIABLES tab,    \* step sizes as a function of the time
          hist,   \* steps: <<time, tick, size, adapted before the step, due>>
          hout,   \* outputs: <<tick, time>>
          nres
rvars == <<vars, ck, tab, hist, hout, nres>>
Confs == [scheme : IF Thorough THEN {"erk 11", "erk 33"} ELSE {"erk 11"}, t0 : {0}, tick0 : {0},
          gran : {2, 3}, tfinal : {7}, enforce : BOOLEAN, mfull : {1}, mlev : {1},
          mckpt : IF Thorough THEN {1, 2, 3} ELSE {1, 2}, mquant : {1}, efull : {TRUE},
          elev : {FALSE}, eckpt : {TRUE}, ecomp : {FALSE}, equant : {FALSE}, qclear : {TRUE}, eadapt : {TRUE},
          tps : {{}, {2}, {1, 3}, {2, 4, 5}}, bang : {FALSE}, hasckpt : {FALSE}, off : {0}, nref : {0}]
Step(x) == tab[(x % 3) + 1]
MCInit == /\ \E c \in Confs : InitFor(c)
          /\ ck = NoCk /\ hist = {} /\ hout = {} /\ nres = 0
          /\ tab \in [1..3 -> {1, 2, 3}]
AdaptedHere == Len(adapts) > 0 /\ adapts[Len(adapts)][1] = t
SubNow == LET s == Limited(Step(t)) IN IF s > 0 THEN s ELSE 1
Run == /\ \/ Acc \/ Solution \/ Analytic \/ Quant \/ Break \/ Adapt \/ FinalError
          \/ pc = "step" /\ Stage(IF k = 0 THEN SubNow ELSE sub, FALSE)
          \/ Done /\ UNCHANGED vars
       /\ Save
       /\ hist' = IF pc = "step" /\ k = 0
                  THEN hist \cup {<<t, tick, sub', AdaptedHere, due, Refined>>} ELSE hist
       /\ hout' = IF pc = "quant" THEN hout \cup {<<tick, t>>} ELSE hout
       /\ UNCHANGED <<tab, nres>>
Again == nres < MaxResume /\ Resumed(conf, FALSE, Lose) /\ nres' = nres + 1 /\ UNCHANGED <<tab, hist, hout>>
MCNext == Run \/ Again
Spec == MCInit /\ [][MCNext]_rvars
(* the same step from the same time, the same output at the same time *)
SameSteps == \A a, b \in hist : a[1] = b[1] => a = b
SameOutputs == \A a, b \in hout : (a[1] = b[1]) = (a[2] = b[2])
=============================================================================
