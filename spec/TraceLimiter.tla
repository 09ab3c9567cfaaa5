----------------------------- MODULE TraceLimiter -----------------------------
(* Bounds and coefficients of the real limiters.  A trace: [P, items], items
     [e |-> "row", i, row, bounds, relaxed, r]    i, row[k].n: nodes [U, p, gmin, s], row[k].c
     [e |-> "combine", a, b, bounds]
     [e |-> "limit", b, U, D, tmin, tmax, t, ok, it, delta] *)
EXTENDS Limiter, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
Tr == Traces[tid]
BTol == "1e-11"
Fin(s) == \A k \in 1..Len(s) : s[k] \notin {"nan", "inf", "-inf"}
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
Item == Tr.items[pos]
Row(P, s) ==
  /\ Fin(s.bounds) /\ Fin(s.relaxed)
  /\ \E a \in {Stencil(P, s.i, s.row, Len(s.row))} : IsBounds(P, s.i, a, s.bounds, BTol)
  /\ IsRelaxed(P, s.bounds, s.relaxed, s.r, BTol)
Limit(P, s) == Fin(<<s.t>>) /\ Coefficient(P, s.b, s.U, s.D, s.tmin, s.tmax, s.t, s.ok, s.it, s.tol, s.delta)
Explained(P, s) == IF s.e = "row" THEN Row(P, s) ELSE IF s.e = "combine" THEN IsCombined(P, s.a, s.b, s.bounds) ELSE Limit(P, s)
TraceNext ==
  \/ /\ pos <= Len(Tr.items)
     /\ \E t \in {Tr} : Explained(t.P, t.items[pos]) = TRUE
     /\ pos' = pos + 1
     /\ UNCHANGED tid
  \/ /\ pos > Len(Tr.items)
     /\ PrintT("ACC " \o ToJson([tid |-> tid]))
     /\ UNCHANGED <<tid, pos>>
===============================================================================
