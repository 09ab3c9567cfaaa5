---------------------------- MODULE TraceTimeLoop ----------------------------
(* Recorded runs of TimeLoop::run() as behaviours of TimeLoop.               *)
EXTENDS Restart, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
CONSTANT LosePending      \* see Restart
VARIABLES tid, pos
tvars == <<vars, ck, tid, pos>>
NA == 999999999
ASet(s) == {s[i] : i \in 1..Len(s)}
Ev == Traces[tid].events[pos]
More == pos <= Len(Traces[tid].events)
Near(x, y) == x - y <= 4 /\ y - x <= 4
Conf(c) == [c EXCEPT !.tps = ASet(@)]
(* sub step sizes: a table over the time *)
Table == Traces[tid].table
Entry(i) == Table[IF i + 1 > Len(Table) THEN Len(Table) ELSE i + 1]
SubFor == LET s == Entry((t + conf.off) \div Traces[tid].interval) \div (2 ^ Refined)
          IN Limited(IF att = 2 THEN s \div 2 ELSE s)
FailsNow == ~conf.hasckpt /\ (nsweep + 1) \in ASet(Traces[tid].fails)
SweepOf(x, o) ==
  /\ More /\ Ev.e = "prep"
  /\ \A i \in 1..Len(Ev.tmin) :
        /\ Ev.tmin[i] # NA => Near(Ev.tmin[i], x)
        /\ Ev.tmax[i] # NA => Near(Ev.tmax[i], x)
  /\ \A i \in 1..Len(Ev.cmin) : Near(Ev.cmin[i], x + o) /\ Near(Ev.cmax[i], x + o)
  /\ {<<f[1], f[2]>> : f \in ASet(Ev.files)} = pend
  /\ pos' = pos + 1 /\ UNCHANGED tid
SweepAt(x) == SweepOf(x, conf.off)
Silent == UNCHANGED <<tid, pos>>

TraceInit == \E n \in 1..Len(Traces) : tid = n /\ pos = 1 /\ InitFor(Conf(Traces[n].conf)) /\ ck = NoCk
RunNext ==
  \/ Acc /\ Silent
  \/ Solution /\ (IF SolutionFiles = {} THEN Silent ELSE SweepAt(t))
  \/ Analytic /\ (IF AnalyticFiles = {} THEN Silent
                  ELSE SweepOf(t, 0))
  \/ Quant /\ Silent
  \/ Break /\ Silent
  \/ FinalError /\ (IF conf.ecomp THEN SweepAt(t) ELSE Silent)
  \/ Adapt /\ (IF Reached = {} THEN Silent ELSE SweepAt(t))
  \/ /\ pc = "step"
     /\ Stage(IF k = 0 THEN SubFor ELSE sub, FailsNow)
     /\ SweepAt(t + (Offs(conf.scheme)[k + 1] * sub') \div 2)
  \/ /\ Done /\ More /\ Ev.e = "end"
     /\ {<<f[1], f[2]>> : f \in ASet(Ev.files)} = pend
     /\ Ev.cycles \in {-1, cycle - 1}
     /\ Ev.t = NA \/ Near(Ev.t, t)
     /\ pos' = pos + 1 /\ UNCHANGED <<vars, tid>>
(* the process was ended, or ended by itself, and another one resumes *)
ResumeNext ==
  /\ More /\ Ev.e = "resume" /\ (Ev.ended = 1 => Done)
  /\ Resumed(Conf(Ev.conf), Ev.zero = 1, LosePending)
  /\ pos' = pos + 1 /\ UNCHANGED tid
TraceNext ==
  \/ RunNext /\ Save
  \/ ResumeNext
  \/ /\ Done /\ ~More
     /\ PrintT("ACC " \o ToJson([tid |-> tid, ticks |-> Len(outs), steps |-> Len(starts), adapts |-> Len(adapts)]))
     /\ UNCHANGED tvars
=============================================================================
