----------------------------- MODULE MCCheckpoint -----------------------------
(* write_checkpoint with a crash after every operation, any number of crashes,
   recovery by hand (moving or copying the backup), resuming and starting afresh. *)
EXTENDS Checkpoint
CONSTANTS MaxGen, MaxCrash,
          Guarded,      \* only complete checkpoints are moved to the backup
          MetaAtomic,   \* the metadata appears under its name only when complete
          Order,        \* order of writing
          Backup,       \* files that are moved
          Fresh         \* runs may start afresh on the remains of earlier ones
VARIABLES pc, gen, todo, crashes
mvars == <<main, back, last, pc, gen, todo, crashes>>

MCInit == main = Empty /\ back = Empty /\ last = 0 /\ pc = "idle" /\ gen = 0 /\ todo = <<>> /\ crashes = 0

RenameOrder == SelectSeq(<<"mesh", "fixed", "info", "meta">>, LAMBDA f : f \in Backup)
(* with gen = g the next checkpoint is g + 1; after resuming from g, g is written again *)
Begin == /\ pc = "idle" /\ gen < MaxGen
         /\ gen' = gen + 1 /\ pc' = "rename"
         /\ todo' = IF Guarded /\ main["meta"] = Absent THEN <<>> ELSE RenameOrder
         /\ UNCHANGED <<main, back, last, crashes>>
Rename == /\ pc = "rename"
          /\ IF todo = <<>> THEN pc' = "open" /\ todo' = Order /\ UNCHANGED <<main, back>>
             ELSE /\ todo' = Tail(todo) /\ pc' = pc
                  /\ IF main[Head(todo)] = Absent THEN UNCHANGED disk ELSE Move(Head(todo))
          /\ UNCHANGED <<last, gen, crashes>>
Open == /\ pc = "open"
        /\ IF todo = <<>> THEN pc' = "idle" /\ UNCHANGED <<main, back, last>>
           ELSE /\ pc' = "write"
                /\ IF Head(todo) = "meta" /\ MetaAtomic THEN UNCHANGED disk
                   ELSE Put(Head(todo), {})
                /\ UNCHANGED last
        /\ UNCHANGED <<gen, todo, crashes>>
Write == /\ pc = "write" /\ pc' = "open"
         /\ Put(Head(todo), {gen}) /\ todo' = Tail(todo)
         /\ Completed /\ UNCHANGED <<gen, crashes>>
Crash == /\ pc \in {"idle", "rename", "open", "write"} /\ crashes < MaxCrash
         /\ pc' = "down" /\ crashes' = crashes + 1 /\ todo' = <<>>
         /\ UNCHANGED <<main, back, last, gen>>
(* somebody puts a complete set under the main names *)
Restore(set, move) ==
  /\ pc = "down" /\ Whole(main) = {} /\ Whole(set) # {}
  /\ main' = set
  /\ back' = [f \in Files |-> IF move /\ main[f] # set[f] THEN Absent ELSE back[f]]
  /\ UNCHANGED <<last, pc, gen, todo, crashes>>
Recover == \E set \in {back, Merged}, move \in BOOLEAN : Restore(set, move)
Resume == /\ pc = "down" /\ Whole(main) # {}
          /\ gen' = Max(Whole(main)) - 1 /\ pc' = "idle"
          /\ UNCHANGED <<main, back, last, todo, crashes>>
(* a new simulation has other contents; its generations are the next free numbers *)
StartAfresh == /\ Fresh /\ pc = "down" /\ gen < MaxGen /\ pc' = "idle"
               /\ UNCHANGED <<main, back, last, gen, todo, crashes>>
MCNext == Begin \/ Rename \/ Open \/ Write \/ Crash \/ Recover \/ Resume \/ StartAfresh \/ UNCHANGED mvars
Spec == MCInit /\ [][MCNext]_mvars
(* what is read is never a mixture: a metadata file under the main name that is
   complete says that everything is complete (it is written last) *)
CommitRecord == main["meta"] \notin {Absent, {}} => Whole(main) # {} \/ pc = "rename" \/ pc = "down"
NoMixture == \A g \in 1..MaxGen : g \in main["meta"] => \A f \in Files : main[f] \in {{g}, Absent}
=============================================================================
