---------------------------- MODULE TraceCheckpoint ----------------------------
(* Recorded checkpoint files of the real code.  One trace is a history of
   processes working on the same directory:
     disk   the files after one operation of the program (or after it ended)
     crash  the process ended before this operation
     fix    files put in place by hand (a complete set of another name)
     resume outcome of a resumed run that ends at once and writes its checkpoint
            again: gens = generations that equals, {} if it refused
     final  outcome of a run: generations its last checkpoint equals
     near   (other number of processes) distance of the result from the reference *)
EXTENDS Checkpoint, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
tvars == <<main, back, last, tid, pos>>
ASet(s) == {s[i] : i \in 1..Len(s)}
Set4(d) == [mesh |-> ASet(d[1]), fixed |-> ASet(d[2]), info |-> ASet(d[3]), meta |-> ASet(d[4])]
Ev == Traces[tid].events[pos]
More == pos <= Len(Traces[tid].events)
Adv == pos' = pos + 1 /\ UNCHANGED tid
AsFun(r) == [f \in Files |-> r[f]]
NewDisk == main' = AsFun(Set4(Ev.main)) /\ back' = AsFun(Set4(Ev.back))

TraceInit == /\ \E n \in 1..Len(Traces) : tid = n /\ pos = 1
             /\ main = Empty /\ back = Empty /\ last = 0
DiskOp == /\ More /\ Ev.e = "disk"
          /\ NewDisk /\ Completed /\ Recoverable' /\ Adv
Fix == /\ More /\ Ev.e = "fix"
       /\ NewDisk /\ UNCHANGED last /\ Recoverable' /\ Adv
Check == /\ More /\ UNCHANGED <<main, back, last>> /\ Adv
         /\ CASE Ev.e = "resume" -> ResumeResult(ASet(Ev.gens)) /\ Ev.untouched
              [] Ev.e = "final" -> Ev.gen \in ASet(Ev.gens)
              [] Ev.e = "near" -> Ev.same /\ Ev.dist <= Ev.tol
              [] OTHER -> FALSE
TraceNext == \/ DiskOp \/ Fix \/ Check
             \/ /\ ~More /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
