------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* TimeLoop::run(): time stepping, timer ticks with their outputs, final   *)
(* time, mesh adaptation time points, and resuming.  Integer times.        *)
(*                                                                         *)
(* Observable behaviour: "sweeps" (every call of prepare_state_vector, with *)
(* the time it is for) and the files written between two sweeps.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  conf,    \* configuration of the run (record, see MCTimeLoop)
  t, tick, cycle,
  pc,
  k,       \* number of stage sweeps done in the current attempt
  att,     \* 1 or 2: attempt of the current time step
  sub,     \* size of the sub step of the current attempt
  nsweep,  \* total number of sweeps
  pend,    \* files written since the last sweep
  due,     \* adaptation time points still ahead
  nacc,    \* samples in the temporal statistics
  qstart,  \* tick at which the current series of quantities began, or -1
  outs,    \* history: <<tick, time, cycle>> of all ticks
  adapts,  \* history: <<time, number of time points served>>
  starts   \* history: times at which steps began
vars == <<conf, t, tick, cycle, pc, k, att, sub, nsweep, pend, due, nacc, qstart, outs, adapts, starts>>

(* stages: offsets of the stage times in sub steps * 2, and number of sub steps *)
Offs(s) == CASE s = "erk 11" -> <<0>> [] s = "ssprk 22" -> <<0, 2>>
             [] s = "ssprk 33" -> <<0, 2, 1>> [] s = "erk 22" -> <<0, 2>>
             [] s = "erk 33" -> <<0, 2, 4>> [] s = "erk 43" -> <<0, 2, 4, 6>>
             [] s = "erk 54" -> <<0, 2, 4, 6, 8>>
EffOf(s) == CASE s \in {"erk 11", "ssprk 22", "ssprk 33"} -> 1 [] s = "erk 22" -> 2
              [] s = "erk 33" -> 3 [] s = "erk 43" -> 4 [] s = "erk 54" -> 5
NS == Len(Offs(conf.scheme))
Eff == EffOf(conf.scheme)

InitFor(c) ==
  /\ conf = c         \* c.off: time shown by the clock of the state minus t (resume at time zero)
  /\ t = c.t0 /\ tick = c.tick0 /\ cycle = 1
  /\ pc = "acc" /\ k = 0 /\ att = 1 /\ sub = 0 /\ nsweep = 0
  /\ pend = {}
  /\ due = {p \in c.tps : p >= c.t0}
  /\ nacc = 0 /\ qstart = -1
  /\ outs = <<>> /\ adapts = <<>> /\ starts = <<>>

F(name, n) == <<name, n>>
Full == tick % conf.mfull = 0 /\ conf.efull
Lev == tick % conf.mlev = 0 /\ conf.elev
Ckpt == tick % conf.mckpt = 0 /\ conf.eckpt
(* a second checkpoint moves the first one to the backup *)
CkptFiles == IF conf.hasckpt \/ \E i \in 1..Len(outs) :
                    outs[i][1] % conf.mckpt = 0
             THEN {F("ckpt", 0), F("ckpt~", 0)} ELSE {F("ckpt", 0)}
SolutionFiles == (IF Full THEN {F("solution", tick)} ELSE {})
            \cup (IF Lev THEN {F("solution-levelsets", tick)} ELSE {})
            \cup (IF Ckpt THEN CkptFiles ELSE {})
AnalyticFiles == (IF Full THEN {F("analytic", tick)} ELSE {})
            \cup (IF Lev THEN {F("analytic-levelsets", tick)} ELSE {})

Ticking == t >= tick * conf.gran

Acc == /\ pc = "acc"
       /\ nacc' = IF conf.equant THEN nacc + 1 ELSE nacc
       /\ pc' = IF Ticking THEN "solution" ELSE "break"
       /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, nsweep, pend, due, qstart, outs, adapts, starts>>

(* Output of the solution and checkpoint at a timer tick *)
Solution ==
  /\ pc = "solution"
  /\ pc' = IF conf.ecomp THEN "analytic" ELSE "quant"
  /\ IF SolutionFiles = {} THEN UNCHANGED <<pend, nsweep>>
     ELSE pend' = SolutionFiles /\ nsweep' = nsweep + 1
  /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, due, nacc, qstart, outs, adapts, starts>>
Analytic ==
  /\ pc = "analytic" /\ pc' = "quant"
  /\ IF AnalyticFiles = {} THEN UNCHANGED <<pend, nsweep>>
     ELSE pend' = AnalyticFiles /\ nsweep' = nsweep + 1
  /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, due, nacc, qstart, outs, adapts, starts>>
DoQuant == conf.equant /\ tick % conf.mquant = 0
QStart == IF qstart = -1 THEN tick ELSE qstart
QuantFiles == {F("inst", tick), F("series", QStart), F("series2", QStart)}
         \cup (IF qstart = -1 THEN {F("points", tick)} ELSE {})
         \cup (IF nacc >= 2 THEN {F("tavg", tick)} ELSE {})
Quant ==
  /\ pc = "quant" /\ pc' = "break"
  /\ IF DoQuant
     THEN /\ pend' = pend \cup QuantFiles
          /\ qstart' = QStart
          /\ nacc' = IF conf.qclear THEN 0 ELSE nacc
     ELSE UNCHANGED <<pend, qstart, nacc>>
  /\ outs' = Append(outs, <<tick, t, cycle>>)
  /\ tick' = tick + 1
  /\ UNCHANGED <<conf, t, cycle, k, att, sub, nsweep, due, adapts, starts>>

Break ==
  /\ pc = "break"
  /\ pc' = IF t >= conf.tfinal THEN "error" ELSE IF conf.eadapt THEN "adapt" ELSE "step"
  /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, nsweep, pend, due, nacc, qstart, outs, adapts, starts>>

(* After the loop the error with respect to the analytic solution is computed *)
FinalError ==
  /\ pc = "error" /\ pc' = "done"
  /\ IF conf.ecomp THEN pend' = {} /\ nsweep' = nsweep + 1 ELSE UNCHANGED <<pend, nsweep>>
  /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, due, nacc, qstart, outs, adapts, starts>>

Reached == {p \in due : t >= p}
(* All time points that have been reached are served by one adaptation.     *)
Adapt ==
  /\ pc = "adapt" /\ pc' = "step"
  /\ due' = due \ Reached
  /\ IF Reached = {} THEN UNCHANGED <<pend, nsweep, adapts, nacc, qstart>>
     ELSE /\ pend' = {} /\ nsweep' = nsweep + 1
          /\ adapts' = Append(adapts, <<t, Cardinality(Reached)>>)
          /\ nacc' = 0 /\ qstart' = -1
  /\ UNCHANGED <<conf, t, tick, cycle, k, att, sub, outs, starts>>

Min(a, b) == IF a < b THEN a ELSE b
Remaining == conf.tfinal - t
Limited(s) == IF conf.enforce THEN Min(s, Remaining \div Eff) ELSE s
FinalStep(s) == conf.enforce /\ Eff * (s + 1) > Remaining
(* One stage of a step; s: sub step size if this is the first stage          *)
Stage(s, fails) ==
  /\ pc = "step"
  /\ nsweep' = nsweep + 1 /\ pend' = {}
  /\ sub' = IF k = 0 THEN s ELSE sub
  /\ starts' = IF k = 0 /\ att = 1 THEN Append(starts, t) ELSE starts
  /\ IF fails /\ att = 1 /\ conf.bang
     THEN k' = 0 /\ att' = 2 /\ UNCHANGED <<t, cycle, pc>>
     ELSE IF k + 1 < NS
     THEN k' = k + 1 /\ UNCHANGED <<att, t, cycle, pc>>
     ELSE /\ k' = 0 /\ att' = 1 /\ cycle' = cycle + 1 /\ pc' = "acc"
          /\ t' = IF FinalStep(sub') THEN conf.tfinal ELSE t + Eff * sub'
  /\ UNCHANGED <<conf, tick, due, nacc, qstart, outs, adapts>>
StageTime == t + (Offs(conf.scheme)[k + 1] * sub) \div 2

Done == pc = "done"
-----------------------------------------------------------------------------
(* Guarantees *)
Ticks ==
  /\ \A i \in 1..Len(outs) :
       /\ outs[i][1] = conf.tick0 + i - 1            \* every tick, once, in order
       /\ outs[i][2] >= outs[i][1] * conf.gran       \* never early
       /\ i > 1 => outs[i][3] > outs[i-1][3]         \* one tick per cycle
  /\ tick = conf.tick0 + Len(outs)
(* ... and never late: a tick that is due is served in the same cycle unless  *)
(* an earlier tick was served in that cycle.                                  *)
Prompt ==
  pc \in {"adapt", "step", "done"} =>
     (t >= tick * conf.gran => Len(outs) > 0 /\ outs[Len(outs)][3] = cycle)
FinalTime ==
  /\ Done => /\ t >= conf.tfinal
             /\ conf.enforce /\ conf.t0 <= conf.tfinal => t = conf.tfinal
  /\ \A i \in 1..Len(starts) : starts[i] < conf.tfinal
  /\ \A i \in 2..Len(starts) : starts[i] > starts[i-1]
AdaptOnce ==
  /\ conf.eadapt /\ pc = "step" => due = {p \in conf.tps : p > t}
  /\ \A i \in 1..Len(adapts) : adapts[i][2] > 0 /\ adapts[i][1] < conf.tfinal
=============================================================================
