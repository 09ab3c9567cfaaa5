----------------------------- MODULE MCTimeLoop -----------------------------
EXTENDS TimeLoop, Json
CONSTANT Thorough
B == BOOLEAN
Base == [scheme : {"erk 11", "erk 22"}, t0 : {0, 3}, tick0 : {0, 1}, gran : {2, 3}, tfinal : {4, 7},
         enforce : B, mfull : {2}, mlev : {1}, mckpt : {2}, mquant : {2},
         efull : {TRUE}, elev : {FALSE}, eckpt : {TRUE}, ecomp : {TRUE}, equant : {TRUE}, qclear : {TRUE},
         eadapt : {TRUE}, tps : {{}, {2}, {1, 5}}, bang : {TRUE}, hasckpt : {FALSE}, off : {0}, nref : {0}]
MCInit == \E c \in Base : (Thorough \/ (c.scheme = "erk 11" /\ c.gran = 2)) /\ (c.t0 = 3 => c.tick0 = 1) /\ InitFor(c)
Steps == IF Thorough THEN {1, 2, 3, 5} ELSE {1, 2, 4}
SubSteps == IF k > 0 THEN {sub}
            ELSE {s \in {Limited(x) : x \in Steps} : s > 0} \cup
                 (IF conf.enforce /\ Remaining < Eff THEN {1} ELSE {})
MCNext == \/ Acc \/ Solution \/ Analytic \/ Quant \/ Break \/ Adapt \/ FinalError
          \/ pc = "step" /\ \E s \in SubSteps, f \in BOOLEAN : Stage(s, f)
          \/ Done /\ UNCHANGED vars
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Terminates == <>Done
=============================================================================
