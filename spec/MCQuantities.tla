---------------------------- MODULE MCQuantities ----------------------------
(* All histories of a few steps with two manifolds on two nodes *)
EXTENDS Quantities
CONSTANTS STEPS, VALUES, TAUS, OPTS, WEIGHTS
VARIABLES now, cyc, clear, ms, all, fresh
vars == <<win, ser, c0, meshed, files, now, cyc, clear, ms, all, fresh>>
V == [1..2 -> {<<x>> : x \in VALUES}]
Opts == SUBSET {"inst", "time", "space"}
Init == /\ QInit /\ now = "0" /\ cyc = 0 /\ clear \in BOOLEAN /\ all = <<>> /\ fresh = FALSE
        /\ \E a \in OPTS, b \in OPTS, w \in WEIGHTS :
             ms = <<[name |-> "a", opts |-> a, pts |-> <<[node |-> 1, w |-> w], [node |-> 2, w |-> "1"]>>],
                    [name |-> "b", opts |-> b, pts |-> <<[node |-> 2, w |-> "1/2"]>>]>>
Step == /\ Len(all) < STEPS
        /\ \E tau \in TAUS, v \in V :
             /\ Accumulate(RAdd(now, tau), v) /\ now' = RAdd(now, tau)
             /\ all' = Append(all, <<RAdd(now, tau), v>>)
        /\ fresh' = TRUE /\ UNCHANGED <<cyc, clear, ms>>
Out == /\ fresh /\ Write(ms, now, all[Len(all)][2], cyc, clear) /\ cyc' = cyc + 1 /\ fresh' = FALSE
       /\ UNCHANGED <<now, clear, ms, all>>
Stutter == UNCHANGED vars
Next == Step \/ Out \/ Stutter
Spec == Init /\ [][Next]_vars

Keys(kind) == {k \in DOMAIN files : k[1] = kind}
(* every sample is in the time series exactly once and in order (or still to be written) *)
Complete == \A i \in 1..2 : ("space" \in ms[i].opts /\ c0 # -1) =>
  LET f == files[<<"series", i, c0>>].rows
  IN /\ Len(f) + Len(ser) = Len(all)
     /\ \A j \in 1..Len(f) : f[j].t = all[j][1]
     /\ \A j \in 2..Len(f) : RLt(f[j - 1].t, f[j].t)
(* means lie between the smallest and the largest value; Jensen: the second moment dominates *)
Vals == {all[j][2][n][1] : j \in 1..Len(all), n \in 1..2}
Between(x) == (\E lo \in Vals : RLe(lo, x)) /\ (\E hi \in Vals : RLe(x, hi))
Means == /\ \A k \in Keys("series") : \A j \in 1..Len(files[k].rows) :
              LET r == files[k].rows[j] IN Between(r.p[1]) /\ RLe(RMul(r.p[1], r.p[1]), r.s[1])
         /\ \A k \in Keys("tavg") : \A j \in 1..Len(files[k].rows) :
              LET r == files[k].rows[j] IN Between(r.p[1]) /\ RLe(RMul(r.p[1], r.p[1]), r.s[1])
(* a window begins at a sample, ends at the time of the writeout and has positive length; windows of
   cleared statistics do not overlap *)
Windows == \A k \in Keys("tavg") : LET f == files[k] IN
  /\ RLt(f.from, f.to)
  /\ \E j \in 1..Len(all) : all[j][1] = f.from
  /\ ~clear => f.from = all[1][1]
  /\ clear => \A l \in Keys("tavg") : (l[2] = k[2] /\ l[3] < k[3]) => RLt(files[l].to, f.from)
(* exactly one set of mesh files *)
OneMesh == \A i \in 1..2 : Cardinality({k \in Keys("points") : k[2] = i}) = IF Points(ms[i]) /\ meshed THEN 1 ELSE 0
(* the instantaneous values are those of the last sample at the time in the file *)
Inst == \A k \in Keys("inst") : \E j \in 1..Len(all) :
  all[j][1] = files[k].t /\ \A n \in 1..Len(ms[k[2]].pts) : files[k].rows[n].p = all[j][2][ms[k[2]].pts[n].node]
=============================================================================
