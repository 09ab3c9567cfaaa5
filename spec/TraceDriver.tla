---------------------------- MODULE TraceDriver ----------------------------
(* Recorded invocations: T.cmd, and T.seen = [failed, runs (per process), created, density] *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, done, cmd, stage, file, eq, dim, next, runs, created, failed
tvars == <<tid, done, cmd, stage, file, eq, dim, next, runs, created, failed>>
D == INSTANCE Driver WITH Registered <- <<"euler", "euler aeos", "navier stokes", "scalar conservation", "shallow water", "skeleton">>
S == Traces[tid].seen
SetOf(q) == {q[i] : i \in 1..Len(q)}
(* the description of the equation that was instantiated *)
Class == [n \in D!Names |-> CASE n = "euler" -> "ryujin::Euler::Description" [] n = "euler aeos" -> "ryujin::EulerAEOS::Description"
  [] n = "navier stokes" -> "ryujin::NavierStokes::Description" [] n = "scalar conservation" -> "ryujin::ScalarConservation::Description"
  [] n = "shallow water" -> "ryujin::ShallowWater::Description" [] n = "skeleton" -> "ryujin::Skeleton::Description"]
Agrees ==
  /\ created = SetOf(S.created)
  /\ created = {} => (S.failed = failed)
  /\ ~S.crashed
  /\ \A p \in 1..Len(S.runs) : LET R == S.runs[p] IN
       /\ Len(R) = Len(runs)
       /\ \A i \in 1..Len(R) : /\ R[i].description = Class[runs[i].eq] /\ R[i].dim = runs[i].dim
                              /\ R[i].basename = runs[i].basename /\ R[i].final = runs[i].final /\ R[i].level = runs[i].level
                              /\ (Traces[tid].density = "" \/ R[i].density = Traces[tid].density)
TraceInit == \E t \in 1..Len(Traces) : tid = t /\ done = FALSE /\ D!DInit(Traces[t].cmd)
TraceNext ==
  \/ stage # "end" /\ D!DNext /\ UNCHANGED <<tid, done>>
  \/ stage = "end" /\ ~done /\ (Agrees = TRUE) /\ done' = TRUE /\ UNCHANGED <<tid, cmd, stage, file, eq, dim, next, runs, created, failed>>
  \/ done /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
