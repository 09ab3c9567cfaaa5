----------------------------- MODULE TraceScheme -----------------------------
(* Recorded updates of the real solver as behaviours of the scheme.  A trace is
     [P, G, steps]  with  steps[k] = [kind, checks, ...]:
   kind "fe":   one explicit update U0 -> U1 with the step size tau (lam: the wave speeds of all edges,
                cfl: the CFL number in effect),
   kind "step": one step of a time stepping scheme, or a multi-stage update, U0 -> U1.
   checks names the properties that are decided for the step. *)
EXTENDS Scheme, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos

Tr == Traces[tid]
Wants(s, c) == \E k \in 1..Len(s.checks) : s.checks[k] = c
AllFinite(U) == \A i \in 1..Len(U) : Finite(U[i])

(* C04: the step size obeys and attains the CFL bound *)
CflOk(G, s, D) ==
  LET t == TauMax(G, D, s.cfl) IN RLt("0", s.tau) /\ Near(s.tau, t, RMul("1e-9", t))

(* a step size handed in from outside is used as it is; with an upper bound the smaller of the two is used *)
GivenOk(s) == REq(s.tau, s.given)
CappedOk(G, s, D) ==
  LET t == TauMax(G, D, s.cfl) IN IF RLe(s.given, RMul(t, "999999/1000000")) THEN REq(s.tau, s.given) ELSE CflOk(G, s, D)
(* no step is made from a state that is not a number *)
RejectedOk(s) == s.error = "exception"

(* C05: totals change by the discrete boundary flux; components of s.closed do not change at all *)
BalanceOk(P, G, s) ==
  \E f \in {FluxTab(P, G, s.U0)} :
    \A k \in 1..Len(s.comps) : LET a == s.comps[k] IN
      Near(RSub(Total(G, s.U1, a), Total(G, s.U0, a)), RNeg(RMul(s.tau, BoundaryFlux(G, f, a))),
           RMul(s.tol, RSum(<<TotalAbs(G, s.U0, a), TotalAbs(G, s.U1, a), RMul(s.tau, FluxScale(G, f, a)), s.scale>>)))
ClosedOk(G, s) ==
  \A k \in 1..Len(s.closed) :
    Near(Total(G, s.U1, s.closed[k]), Total(G, s.U0, s.closed[k]),
         RMul(s.tol, RAdd(RAdd(TotalAbs(G, s.U0, s.closed[k]), TotalAbs(G, s.U1, s.closed[k])), s.scale)))

(* C06 *)
AdmissibleOk(P, s) == \A i \in 1..Len(s.U1) : Admissible(P, s.U1[i])

(* the density (depth, scalar) stays within the local bar states *)
LocalOk(P, G, s, D) ==
  \E f \in {FluxTab(P, G, s.U0)} :
    \A i \in Nodes(G) :
      \E bars \in {[k \in 1..Len(G.nbr[i]) |-> IF k = 1 THEN s.U0[i][1] ELSE Bar(G, s.U0, D, f, i, k)[1]]} :
        LET lo == RMinSeq(bars)  hi == RMaxSeq(bars)  e == RMul(s.tol, RMax(RAbs(lo), RAbs(hi)))
        IN /\ RLe(RSub(lo, e), s.U1[i][1])
           /\ RLe(s.U1[i][1], RAdd(hi, e))
(* no value outside the range of the previous values of the stencil *)
RangeOk(G, s) ==
  \A i \in Nodes(G) :
    \E v \in {[k \in 1..Len(G.nbr[i]) |-> s.U0[G.nbr[i][k]][1]]} :
      LET lo == RMinSeq(v)  hi == RMaxSeq(v)  e == RMul(s.tol, RMax("1", RMax(RAbs(lo), RAbs(hi))))
      IN /\ RLe(RSub(lo, e), s.U1[i][1]) /\ RLe(s.U1[i][1], RAdd(hi, e))
(* ... or of all previous values, including the ones prescribed at the boundary *)
GlobalOk(s) ==
  \E v \in {[i \in 1..Len(s.U0) |-> s.U0[i][1]]} :
    LET lo == RMinSeq(v)  hi == RMaxSeq(v)  e == RMul(s.tol, RMax("1", RMax(RAbs(lo), RAbs(hi))))
    IN \A i \in 1..Len(s.U1) : RLe(RSub(lo, e), s.U1[i][1]) /\ RLe(s.U1[i][1], RAdd(hi, e))
MinEntropyOk(P, s) ==
  \E m \in {RMinSeq([i \in 1..Len(s.U0) |-> EntropyPow(P, s.U0[i])])} :
    \A i \in 1..Len(s.U1) : RLe(RMul(m, RSub("1", s.etol)), EntropyPow(P, s.U1[i]))
EntropyOk(P, G, s) ==
  \E old \in {[i \in Nodes(G) |-> EntropyPow(P, s.U0[i])]} :
    \A i \in Nodes(G) :
      LET m == RMinSeq([k \in 1..Len(G.nbr[i]) |-> old[G.nbr[i][k]]])
      IN RLe(RMul(m, RSub("1", s.etol)), EntropyPow(P, s.U1[i]))

(* C20 *)
FixedOk(s) ==
  \A i \in 1..Len(s.U1) : \A a \in 1..Len(s.U1[i]) : Near(s.U1[i][a], s.U0[i][a], RMul(s.tol, s.size[a]))

(* C04: the update without antidiffusive correction is the one with the viscosities of every single edge *)
LowOk(P, G, s, D) ==
  \E f \in {FluxTab(P, G, s.U0)} :
    \A i \in Nodes(G) : \E u \in {Low(P, G, s.U0, D, f, s.tau, i)} :
      \A k \in 1..Len(s.comps) : LET a == s.comps[k] IN
        Near(s.U1[i][a], u[a], RMul(s.tol, s.size[a]))

(* friction acts against the flow and never reverses it; the water depth is unchanged *)
FrictionOk(s) ==
  \A i \in 1..Len(s.U1) :
    LET q0 == SubSeq(s.U0[i], 2, Len(s.U0[i]))  q1 == SubSeq(s.U1[i], 2, Len(s.U1[i]))
        eps == RMul(s.tol, s.size[2])  e == RMul(eps, RAdd(eps, RSumAbs(q0))) IN
    /\ Near(s.U1[i][1], s.U0[i][1], RMul(s.tol, s.size[1]))
    /\ RLe(RDot(q1, q1), RAdd(RDot(q0, q0), e))
    /\ RLe(RNeg(e), RDot(q0, q1))
    /\ \A a, b \in 1..Len(q0) : Near(RMul(q0[a], q1[b]), RMul(q0[b], q1[a]), e)

NeedsD(s) == Wants(s, "low") \/  Wants(s, "cfl") \/ Wants(s, "local") \/ Wants(s, "capped")
Explained(P, G, s) ==
  /\ (Wants(s, "rejected") => RejectedOk(s))
  /\ (~Wants(s, "rejected") => AllFinite(s.U1) /\ s.error = "")
  /\ (Wants(s, "given") => GivenOk(s))
  /\ IF NeedsD(s)
     THEN \E D \in {Dtab(G, s.lam)} :
            /\ (Wants(s, "cfl") => CflOk(G, s, D))
            /\ (Wants(s, "capped") => CappedOk(G, s, D))
            /\ (Wants(s, "low") => LowOk(P, G, s, D))
            /\ (Wants(s, "local") => LocalOk(P, G, s, D))
     ELSE TRUE
  /\ (Wants(s, "balance") => BalanceOk(P, G, s))
  /\ (Wants(s, "closed") => ClosedOk(G, s))
  /\ (Wants(s, "admissible") => AdmissibleOk(P, s))
  /\ (Wants(s, "range") => RangeOk(G, s))
  /\ (Wants(s, "global") => GlobalOk(s))
  /\ (Wants(s, "minentropy") => MinEntropyOk(P, s))
  /\ (Wants(s, "entropy") => EntropyOk(P, G, s))
  /\ (Wants(s, "friction") => FrictionOk(s))
  /\ (Wants(s, "fixed") => FixedOk(s))

TraceInit == tid \in 1..Len(Traces) /\ pos = 1
TraceNext ==
  \/ /\ pos <= Len(Tr.steps)
     /\ \E t \in {Tr} : Explained(t.P, t.G, t.steps[pos]) = TRUE
     /\ pos' = pos + 1
     /\ UNCHANGED tid
  \/ /\ pos > Len(Tr.steps)
     /\ PrintT("ACC " \o ToJson([tid |-> tid]))
     /\ UNCHANGED <<tid, pos>>
=============================================================================
