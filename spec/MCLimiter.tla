------------------------------ MODULE MCLimiter ------------------------------
(* The limiter as an algorithm: the density cuts the interval [tl, tr], then quadratic Newton steps shrink it
   from both ends while the left end stays inside.  Euler with gamma 2 in one dimension, exact arithmetic
   (roots are brackets of K bits and Eps admits their width).  Variants
     "shortcut"  the algorithm as it was: an empty interval is returned without looking at its end
     "careful"   the shortcut of an empty interval is taken only if its end is inside
     "one sided" both parabolas of a step are trusted (no minimum and maximum): not a limiter
   The composite action Combine takes the smaller of the coefficients of both ends: the update stays inside. *)
EXTENDS Limiter
CONSTANTS Variant, MaxIt, Us, Ds, Bs
VARIABLES pc, U, D, b, tl, tr, ok, it
vars == <<pc, U, D, b, tl, tr, ok, it>>
P == [eq |-> "euler", gamma |-> "2", b |-> "0", q |-> "0", pinf |-> "0", kinetic |-> FALSE, velocity |-> FALSE]
K == 200
Eps == "1b-60"
S == [rho |-> "1", E |-> "1"]

(* psi(t) = rho (E rho - m^2/2) - s rho^4 and its derivative, over rho: rho e = E - m^2/(2 rho) *)
V(t) == At(U, D, t)
Psi(t) == LET v == V(t) IN RSub(RSub(RMul(v[1], v[3]), RMul("1/2", RMul(v[2], v[2]))), RMul(b[3], RMul(RMul(v[1], v[1]), v[1])))
DPsi(t) == LET v == V(t) IN RSub(RSub(RAdd(RMul(D[1], v[3]), RMul(v[1], D[3])), RMul(v[2], D[2])),
                                 RProduct(<<RMul("3", b[3]), RMul(v[1], v[1]), D[1]>>))

MCInit == /\ U \in Us /\ D \in Ds /\ b \in Bs
          /\ pc = "density" /\ tl = "0" /\ tr = "1" /\ ok = TRUE /\ it = 0
Density ==
  /\ pc = "density"
  /\ ok' = DensityIn(b, U, "0", S)
  /\ LET x == RAdd(U[1], D[1])
         cut == IF REq(D[1], "0") THEN IF RLe(b[1], x) /\ RLe(x, b[2]) THEN "1" ELSE "0"
                ELSE IF RLt(b[2], x) THEN RDiv(RSub(b[2], U[1]), RAbs(D[1]))
                ELSE IF RLt(x, b[1]) THEN RDiv(RSub(U[1], b[1]), RAbs(D[1])) ELSE "1"
     IN tr' = RMax("0", RMin("1", cut))
  /\ pc' = "newton" /\ UNCHANGED <<U, D, b, tl, it>>

Clamp(t) == RMin(RMax(t, tl), tr)
Step(t, psi, dpsi, dd) ==
  LET den == RSub(dpsi, RRootUp(RAbs(RSub(RMul(dpsi, dpsi), RProduct(<<"4", psi, dd>>))), 2, K))
  IN IF REq(den, "0")       \* a start on the boundary: the other root, as the real step does it
     THEN IF REq(dd, "0") THEN Clamp(t) ELSE Clamp(RSub(t, RDiv(dpsi, dd))) ELSE Clamp(RSub(t, RDiv(RMul("2", psi), den)))
Newton ==
  /\ pc = "newton"
  /\ \E pr \in {Psi(tr)}, pl \in {Psi(tl)} :
       IF it = MaxIt THEN pc' = "done" /\ UNCHANGED <<tl, tr, ok, it>>
       ELSE IF RLt("0", pr) THEN pc' = "done" /\ tl' = tr /\ UNCHANGED <<tr, ok, it>>
       ELSE IF Variant = "shortcut" /\ REq(tl, tr) THEN pc' = "done" /\ UNCHANGED <<tl, tr, ok, it>>
       ELSE /\ ok' = (ok /\ (it = 0 => RLe("0", pl)))
            /\ it' = it + 1
            /\ IF REq(tl, tr) THEN pc' = "done" /\ UNCHANGED <<tl, tr>>
               ELSE LET w == RSub(tr, tl)
                        dl == DPsi(tl)  dr == DPsi(tr)  m == RDiv(RSub(pr, pl), w)
                        a1 == Step(tl, pl, dl, RDiv(RSub(m, dl), w))
                        a2 == Step(tr, pr, dr, RDiv(RSub(dr, m), w))
                    IN /\ IF Variant = "one sided" THEN tl' = RMax(a1, a2) /\ tr' = RMax(a1, a2)
                          ELSE tl' = RMin(a1, a2) /\ tr' = RMax(a1, a2)
                       /\ pc' = "newton"
  /\ UNCHANGED <<U, D, b>>
MCNext == Density \/ Newton \/ (pc = "done" /\ UNCHANGED vars)
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

Round(t) == RDown(t, 150)
Ordered == RLe("0", tl) /\ RLe(tl, tr) /\ RLe(tr, "1")
Start == InDomain(P, b, U, "0", S)
\* psi >= - Eps instead of InDomain with a tolerance: the same for rho > 0
LeftInside == pc # "density" /\ Start => DensityIn(b, V(tl), "0", S) /\ RLe(RNeg(Eps), Psi(tl))
Maximal == pc = "done" /\ Start /\ MaxIt > 0 =>
             /\ (RLt("0", Psi("1")) /\ DensityIn(b, V("1"), "0", S) => tl = "1")
             /\ (it < MaxIt /\ RLt(tl, "1") => \/ ~InDomain(P, b, V(RAdd(tl, "1b-20")), "-1b-60", S))
Reported == pc = "done" =>
              /\ (~DensityIn(b, U, "0", S) => ~ok)
              /\ (Start => ok)
              /\ (MaxIt > 0 /\ RLt(Psi("0"), "0") /\ RLt(Psi(tl), "0") => ~ok)
Terminates == <>(pc = "done")
Shrinks == [][RLe(tl, tl') /\ (pc = "newton" => RLe(tr', tr))]_vars

(* The update of a node is the mean of its updates with one neighbour each; both ends use the smaller coefficient *)
Combined == pc = "done" /\ Start => \A f \in {"0", "1/4", "1/2", "1"} :
              LET v == V(RMul(f, tl)) IN DensityIn(b, v, "0", S) /\ RLe(RNeg(Eps), Psi(RMul(f, tl)))
Rhos == {"1", "2"}
Moms == {"0", "1", "-1"}
Ens == {"1", "3"}
MCUs == {<<r, m, e>> : r \in Rhos, m \in Moms, e \in Ens}
MCDs == {<<r, m, e>> : r \in {"0", "1/2", "-1", "3"}, m \in {"0", "1", "-3"}, e \in {"0", "1", "-2"}}
MCBs == {<<l, h, s>> : l \in {"1/2", "1"}, h \in {"1", "5/2"}, s \in {"0", "1/4", "1/2", "1"}}
=============================================================================
