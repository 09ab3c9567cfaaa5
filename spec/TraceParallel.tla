--------------------------- MODULE TraceParallel ---------------------------
(* The same history of calls on different numbers of processes and threads.  A trace is
   runs[r] = [name, ev], ev[k] = [e: kind, num: sequence of numbers that are no fields (times, step sizes, counters),
   f: fields], a field is a sequence (by node) of sequences (by component); size[k][f]: magnitudes of the components.
   All runs are the run of the sequential execution up to roundoff (tol). *)
EXTENDS Rational, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
tvars == <<tid, pos>>
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
Close(a, b, size) == RLe(RAbs(RSub(a, b)), RMul(T.tol, size))
FieldOk(a, b, size) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : Len(a[n]) = Len(b[n]) /\ \A c \in 1..Len(a[n]) : Close(a[n][c], b[n][c], size[c])
EventOk(a, b, size) ==
  /\ a.e = b.e /\ a.error = b.error /\ Len(a.num) = Len(b.num) /\ Len(a.f) = Len(b.f)
  /\ \A k \in 1..Len(a.num) : Close(a.num[k], b.num[k], RAbs(a.num[k]))
  /\ \A k \in 1..Len(a.f) : FieldOk(a.f[k], b.f[k], size[k])
Ref == T.runs[1].ev
StepOk == \A r \in 2..Len(T.runs) : Len(T.runs[r].ev) = Len(Ref) /\ EventOk(Ref[pos], T.runs[r].ev[pos], T.size[pos])
TraceNext ==
  \/ pos <= Len(Ref) /\ StepOk = TRUE /\ pos' = pos + 1 /\ UNCHANGED tid
  \/ pos = Len(Ref) + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
