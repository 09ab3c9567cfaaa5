------------------------------ MODULE Checkpoint ------------------------------
(***************************************************************************)
(* Checkpoints on disk.  A checkpoint consists of several files; each is    *)
(* present under its own name (main) and possibly under a backup name.      *)
(* The content of a file is the set of generations (number of the timer     *)
(* tick) whose complete content it equals: {} is a partly written file,     *)
(* {0} an absent one.  A file may equal several generations (e.g. the mesh  *)
(* if it did not change).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Files == {"mesh", "fixed", "info", "meta"}
Absent == {0}
VARIABLES main, back, last    \* last: newest generation completely written
disk == <<main, back>>

Whole(set) == {g \in set["meta"] : g # 0 /\ \A f \in Files : g \in set[f]}
(* what somebody recovers by hand: a file that is missing is taken from the backup *)
Merged == [f \in Files |-> IF main[f] = Absent THEN back[f] ELSE main[f]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* A complete checkpoint, at least as new as the newest that was completed, can be found *)
Recoverable ==
  last = 0 \/ \E set \in {main, back, Merged} : \E g \in Whole(set) : g >= last
(* A run that resumes reads exactly one complete generation, or refuses *)
ResumeResult(r) == IF Whole(main) = {} THEN r = {} ELSE r # {} /\ r \subseteq Whole(main)

Empty == [f \in Files |-> Absent]
(* operations on single files *)
Move(f) == /\ main[f] # Absent
           /\ back' = [back EXCEPT ![f] = main[f]] /\ main' = [main EXCEPT ![f] = Absent]
Put(f, c) == main' = [main EXCEPT ![f] = c] /\ UNCHANGED back
Completed == last' = IF Whole(main') = {} THEN last
                     ELSE LET g == Max(Whole(main')) IN IF g > last THEN g ELSE last
=============================================================================
