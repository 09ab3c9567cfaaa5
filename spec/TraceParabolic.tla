-------------------------- MODULE TraceParabolic --------------------------
(* Recorded parabolic steps.  T = [P, M, tol: of the linear solver, linf: norm of the stopping criterion,
   ev: sequence of [raise: report by an exception, tau, old, new, dir: per node the state prescribed at the new time,
   warnings, restarts, restart]]. *)
EXTENDS Parabolic, Json, IOUtils, TLC, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, S
tvars == <<tid, pos, S>>
T == Traces[tid]
P == T.P
M == T.M
N == 1..Len(M.nodes)
NC == 1..Len(M.cells)
A == 1..Len(M.cells[1].d)
TraceInit == \E i \in 1..Len(Traces) : tid = i /\ pos = -1 /\ S = <<>>

EPS == "2e-13"
Sum2(f) == RSum([k \in 1..Len(f) |-> RMul(f[k], f[k])])
Max0(f) == RMaxSeq(<<"0">> \o f)
Sqrt(x) == RRootUp(x, 2, 80)
Flat(s) == FoldLeft(LAMBDA x, y : x \o y, <<>>, s)

(* quantities of a step *)
Rho(E) == [i \in N |-> E.old[i][1]]
Dirichlet(i) == DIRICHLET \in Ids(M, i)
NoSlip(i) == NOSLIP \in Ids(M, i)
Slip(i) == SLIP \in Ids(M, i)
OldE(E) == [i \in N |-> Energy(P, IF Dirichlet(i) THEN E.dir[i] ELSE E.old[i])]
VNew(E) == [i \in N |-> Vel(P, E.new[i])]
VOld(E) == [i \in N |-> Vel(P, E.old[i])]
ENew(E) == [i \in N |-> Energy(P, E.new[i])]
Mom(E) == [i \in N |-> [d \in Dim(P) |-> E.old[i][1 + d]]]

(* the right hand side that the stopping criterion of the velocity refers to *)
VRhs(E, i) == IF Dirichlet(i) THEN Vel(P, E.dir[i])
              ELSE IF NoSlip(i) THEN [d \in Dim(P) |-> "0"]
              ELSE Tangential(P, [d \in Dim(P) |-> RMul(M.nodes[i].m, E.old[i][1 + d])], Normals(M, i))
Goal(f) == RMul(T.tol, IF T.linf THEN Max0([k \in 1..Len(f) |-> RAbs(f[k])]) ELSE Sqrt(Sum2(f)))

Unchanged(E) == \A i \in N : REq(E.new[i][1], E.old[i][1])

Imposed(E, i, v, small) ==
  /\ NoSlip(i) /\ ~Dirichlet(i) => \A d \in Dim(P) : RLe(RAbs(v[i][d]), small)
  /\ Ids(M, i) \cap {SLIP, NOSLIP, DIRICHLET} = {DIRICHLET} => \A d \in Dim(P) : RLe(RAbs(RSub(v[i][d], Vel(P, E.dir[i])[d])), small)
  /\ Slip(i) /\ ~Strong(M, i) => \A k \in 1..Len(Normals(M, i)) : RLe(RAbs(RDot(v[i], Normals(M, i)[k])), small)

Free(i) == ~Strong(M, i)
(* sizes: rounding errors of the residuals *)
AbsVec(x) == RSumAbs(x)
VelocityOK(E, v, B) ==
  LET rho == Rho(E)
      mom == Mom(E)
      goal == Goal(Flat([i \in N |-> VRhs(E, i)]))
      res == [i \in N |-> IF Free(i) THEN Tangential(P, MomentumResidual(P, M, E.tau, rho, v, mom, B.f, i), Normals(M, i)) ELSE <<"0">>]
      size == [i \in N |-> RAdd(RMul(M.nodes[i].m, RAdd(RMul(rho[i], AbsVec(v[i])), AbsVec(mom[i]))), RMul(E.tau, B.size[i]))]
      slack == RMul(EPS, Sqrt(Sum2(size)))
      vmax == Max0([i \in N |-> RAdd(AbsVec(v[i]), AbsVec(Vel(P, E.dir[i])))])
      bound == RAdd(RMul("1.01", goal), slack)
  IN /\ RLe(Sum2(Flat(res)), RMul(bound, bound))
     /\ \A i \in N : Imposed(E, i, v, RAdd(bound, RMul("1e-12", RAdd("1", vmax))))

Heat(E, v, e, K, L) ==
  LET rho == Rho(E)
      rhs == [i \in N |-> EnergyRhs(P, M, E.tau, rho, VOld(E), v, OldE(E), K, i)]
      goal == Goal([i \in N |-> IF Dirichlet(i) THEN OldE(E)[i] ELSE rhs[i]])
      res == [i \in N |-> IF Dirichlet(i) THEN "0" ELSE EnergyResidual(P, M, E.tau, rho, e, rhs, L.f, i)]
      size == [i \in N |-> RAdd(RMul(M.nodes[i].m, RAdd(E.new[i][P.dim + 2], E.old[i][P.dim + 2])),
                                RMul(E.tau, RAdd(RAbs(K[i]), RMul(P.kappa, L.size[i]))))]
      bound == RAdd(RMul("1.01", goal), RMul(EPS, Sqrt(Sum2(size))))
      mmin == RMinSeq([i \in N |-> RMul(M.nodes[i].m, rho[i])])
  IN [ok |-> RLe(Sum2(res), RMul(bound, bound)), bound |-> bound, err |-> RDiv(bound, mmin)]
EnergyOK(E, e, H) ==
  /\ H.ok
  /\ \A i \in N : Dirichlet(i) => RLe(RAbs(RSub(e[i], OldE(E)[i])), RAdd(H.bound, RMul("1e-12", RAdd(E.new[i][P.dim + 2], OldE(E)[i]))))

(* balances: no boundary exchange *)
MomentumKept(E) ==
  (\A i \in N : Ids(M, i) \cap {SLIP, NOSLIP, DIRICHLET} = {}) =>
     LET goal == Goal(Flat([i \in N |-> VRhs(E, i)]))
     IN \A d \in Dim(P) :
          RLe(RAbs(RSum([i \in N |-> RMul(M.nodes[i].m, RSub(E.new[i][1 + d], E.old[i][1 + d]))])),
              RAdd(RMul(goal, R(Len(M.nodes))), RMul("1e-12", RSum([i \in N |-> RMul(M.nodes[i].m, RAdd(RAbs(E.new[i][1 + d]), RAbs(E.old[i][1 + d])))]))))
(* the residuals of both equations change the total energy: of the momentum, times the velocity *)
EnergyKept(E, v, H) ==
  (\A i \in N : ~Dirichlet(i)) =>
     LET goal == RAdd(H.bound, RMul(Goal(Flat([i \in N |-> VRhs(E, i)])), Max0([i \in N |-> AbsVec(v[i])])))
         tot(U) == RSum([i \in N |-> RMul(M.nodes[i].m, U[i][P.dim + 2])])
     IN RLe(RAbs(RSub(tot(E.new), tot(E.old))), RAdd(RMul(goal, R(Len(M.nodes))), RMul("1e-12", RAdd(tot(E.new), tot(E.old)))))

(* minimum principle, where heat conduction has no positive coupling; and the report of violations *)
MinOK(E, e, H) ==
  LET low == RMinSeq([i \in N |-> OldE(E)[i]])
      new == RMinSeq([i \in N |-> e[i]])
      thr == RMul(low, RSub("1", "2220446049250313e-28"))       \* 1000 machine epsilon
      err == RMul("1e-14", Max0([i \in N |-> RDiv(RAdd(E.new[i][P.dim + 2], E.old[i][P.dim + 2]), E.old[i][1])]))
      reported == E.warnings + E.restarts > 0
  IN /\ S.mono => RLe(RSub(RSub(low, H.err), err), new)
     /\ (RLt(new, RSub(thr, err)) => reported)
     /\ (RLt(RAdd(thr, err), new) => ~reported)
     /\ E.warnings + E.restarts <= 1
     /\ (E.warnings = 1 => ~E.raise) /\ (E.restarts = 1 => E.raise) /\ (E.restart = (E.restarts = 1))

StepOK(E) ==
  (/\ Unchanged(E)
   /\ \E v \in {TLCEval(VNew(E))} : \E e \in {TLCEval(ENew(E))} :
      \E G \in {TLCEval([c \in NC |-> Gradients(P, M.cells[c], v)])} :
      \E Z \in {TLCEval([c \in NC |-> Stresses(P, G[c])])} :
      \E b \in {TLCEval([c \in NC |-> [a \in A |-> [d \in Dim(P) |-> TestStress(P, M.cells[c], Z[c], a, d)]]])} :
      \E k \in {TLCEval([c \in NC |-> [a \in A |-> TestDissipation(P, M.cells[c], G[c], Z[c], a)]])} :
      \E l \in {TLCEval([c \in NC |-> [a \in A |-> TestHeat(P, M.cells[c], e, a)]])} :
      \E B \in {TLCEval([f |-> [i \in N |-> [d \in Dim(P) |-> Gather(S.occ[i], LAMBDA c, a : b[c][a][d])]],
                         size |-> [i \in N |-> RSum([d \in Dim(P) |-> Gather(S.occ[i], LAMBDA c, a : RAbs(b[c][a][d]))])]])} :
      \E K \in {TLCEval([i \in N |-> Gather(S.occ[i], LAMBDA c, a : k[c][a])])} :
      \E L \in {TLCEval([f |-> [i \in N |-> Gather(S.occ[i], LAMBDA c, a : l[c][a])],
                         size |-> [i \in N |-> Gather(S.occ[i], LAMBDA c, a : RAbs(l[c][a]))]])} :
      \E H \in {TLCEval(Heat(E, v, e, K, L))} :
        /\ VelocityOK(E, v, B)
        /\ EnergyOK(E, e, H)
        /\ MomentumKept(E)
        /\ EnergyKept(E, v, H)
        /\ MinOK(E, e, H)) = TRUE

(* heat conduction between two nodes; mono: no positive coupling *)
Coupling(c, a, b) == RSum([q \in 1..Len(M.cells[c].q) |-> RMul(M.cells[c].q[q].w, RDot(M.cells[c].q[q].g[a], M.cells[c].q[q].g[b]))])
Setup ==
  /\ pos = -1 /\ pos' = 1 /\ UNCHANGED tid
  /\ \E occ \in {TLCEval([i \in N |-> SetToSeq(Occurrences(M, i))])} :
       S' = [occ |-> occ, mono |-> \A c \in NC : /\ \A a \in A : Len(M.cells[c].d[a]) = 1
                                                 /\ \A a, b \in A : a < b => RLe(Coupling(c, a, b), "1e-14")]
Step == /\ pos >= 1 /\ pos <= Len(T.ev) /\ StepOK(T.ev[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<tid, S>>
TraceNext ==
  \/ Setup
  \/ Step
  \/ pos = Len(T.ev) + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
