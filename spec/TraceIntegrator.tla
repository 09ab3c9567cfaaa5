--------------------------- MODULE TraceIntegrator ---------------------------
(* Recorded executions of TimeIntegrator::step as behaviours of Integrator. *)
(* One trace is one call of step(); every event carries the values observed *)
(* on all MPI ranks (in units of the reference time scale divided by Q,     *)
(* times relative to the beginning of the step).                            *)
EXTENDS Integrator, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
tvars == <<vars, tid, pos>>
NA == 999999999
ASet(s) == {s[i] : i \in 1..Len(s)}
Conf(t) == [t.conf EXCEPT !.ranks = ASet(@)]
Ev == Traces[tid].events[pos]
More == pos <= Len(Traces[tid].events)
TolT == IF conf.scheme = "erk 54" THEN 40 ELSE 8
Sc(x) == IF tau[1] = 0 THEN 0 ELSE (x * tau[1]) \div tau[2]
Close(obs, val) == Near(obs, Sc(val), TolT)
RankIx == 1..Cardinality(conf.ranks)
StateMatches(e, r) ==
  \A i \in RankIx :
    /\ \A k \in 1..K : Close(e.y[i][k], r.y[k - 1]) /\ Close(e.s[i][k], r.s[k - 1])
    /\ Close(e.p[i], r.p)
ClockMatches(e, r) ==
  \A i \in RankIx : Close(e.cmin[i], r.clk) /\ Close(e.cmax[i], r.clk)
Half(c2) == (c2 * Q) \div 2

TraceInit == \E t \in 1..Len(Traces) : \E th \in ASet(Traces[t].th) :
               /\ tid = t /\ pos = 1 /\ InitFor(Conf(Traces[t]), th)
Step == pos' = pos + 1 /\ UNCHANGED tid
TPrep ==
  /\ More /\ Ev.e = "prep" /\ DoPrep
  /\ StateMatches(Ev, regs[Op.r]) /\ ClockMatches(Ev, regs[Op.r])
  /\ \A i \in RankIx : /\ Ev.tmin[i] # NA => Close(Ev.tmin[i], Half(Op.c2))
                       /\ Ev.tmax[i] # NA => Close(Ev.tmax[i], Half(Op.c2))
                       /\ Ev.poserr[i] = 0
  /\ Step
THyp ==
  /\ ~Done /\ Op.op = "hyp"
  /\ DoHyp({r \in conf.ranks : \E i \in 1..Len(Traces[tid].script) :
                Traces[tid].script[i] = <<r, sweep>>})
  /\ UNCHANGED <<tid, pos>>
TSadd == DoSadd /\ UNCHANGED <<tid, pos>>
TPar ==
  /\ More /\ Ev.e = "bes" /\ ~Done /\ Op.op = "par"
  /\ StateMatches(Ev, regs[Op.src])
  /\ \A i \in RankIx : Close(Ev.t[i], Half(Op.c2)) /\ Close(Ev.tau[i], Half(Op.dt2))
  /\ DoPar(IF (pcall + 1) \in ASet(Traces[tid].pscript) THEN conf.ranks ELSE {})
  /\ Step
TRet ==
  /\ More /\ Ev.e = "step" /\ DoRet
  /\ StateMatches(Ev, result'.reg) /\ ClockMatches(Ev, result'.reg)
  /\ \A i \in RankIx :
       /\ Close(Ev.tau[i], Op.eff * Q)
       /\ Ev.restarts[i] = restarts /\ Ev.warnings[i] = warnings
       /\ Ev.prestarts[i] = prestarts /\ Ev.pwarnings[i] = pwarnings
       /\ Near(Ev.cfl[i], (cfl[1] * Q) \div cfl[2], 4)
       /\ ~Ev.error[i]
  /\ Step
Accept ==
  /\ Done /\ ~More
  /\ PrintT("ACC " \o ToJson([tid |-> tid, theta |-> theta, attempt |-> attempt]))
  /\ UNCHANGED tvars
TraceNext == TPrep \/ THyp \/ TSadd \/ TPar \/ TRet \/ Accept
=============================================================================
