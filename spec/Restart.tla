------------------------------- MODULE Restart -------------------------------
(* Checkpointing and resuming the time loop: what is saved, and how a run
   continues.  ck is what the newest checkpoint on disk stands for.          *)
EXTENDS TimeLoop
VARIABLE ck
NoCk == [t |-> -1, tick |-> 0, due |-> {}, off |-> 0, nref |-> 0]
(* global refinements of the mesh so far *)
Refined == conf.nref + Len(adapts)
Save == ck' = IF pc = "solution" /\ Ckpt
              THEN [t |-> t, tick |-> tick, due |-> due, off |-> conf.off, nref |-> Refined] ELSE ck
(* zero: resume at time zero.
   lose: the time points that had been reached but not been served yet when the
   checkpoint was written are forgotten (not part of the specification; see
   known-findings.txt) *)
Resumed(c, zero, lose) ==
  /\ ck # NoCk
  /\ t' = IF zero THEN 0 ELSE ck.t
  /\ tick' = IF zero THEN 0 ELSE ck.tick
  /\ conf' = [c EXCEPT !.t0 = t', !.tick0 = tick', !.hasckpt = TRUE, !.nref = ck.nref,
                       !.off = IF zero THEN ck.off + ck.t ELSE ck.off]
  /\ due' = {p \in c.tps : p >= t' \/ (~zero /\ ~lose /\ p \in ck.due)}
  /\ cycle' = 1 /\ pc' = "acc" /\ k' = 0 /\ att' = 1 /\ sub' = 0 /\ nsweep' = 0
  /\ pend' = {} /\ nacc' = 0 /\ qstart' = -1
  /\ outs' = <<>> /\ adapts' = <<>> /\ starts' = <<>>
  /\ UNCHANGED ck
=============================================================================
