----------------------------- MODULE Integrator -----------------------------
(***************************************************************************)
(* The explicit and IMEX time integrators of ryujin (TimeIntegrator::step) *)
(* together with the recovery from invariant domain violations, as a       *)
(* transition system.                                                      *)
(*                                                                         *)
(* A time stepping scheme is a program over state registers.  A register   *)
(* does not hold a field but the *linear combination of stage evaluations* *)
(* that produced the field, in units of tau/Q:                             *)
(*     y[k]  multiple of the flux evaluated at stage k                     *)
(*     s[k]  multiple of the source term evaluated at stage k              *)
(*     p     accumulated parabolic time                                    *)
(*     clk   time reached (field with right-hand side 1)                   *)
(*     st    stage number under which the register was last prepared       *)
(*     prep  time for which it was prepared (boundary values, precomputed  *)
(*           values, ghost layer), or None                                 *)
(* The probe equation of the conformance harness records exactly these     *)
(* numbers in the components of its state.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Q,          \* fixed point unit of weights
          K           \* maximal number of stages

None == -1
NK == 0..(K-1)
Zero == [k \in NK |-> 0]

(* w = n/10^6 in units of 1/Q *)
W6(n) == IF Q = 1200000 THEN (n * 6) \div 5 ELSE n \div (1000000 \div Q)
R(n, d) == (n * Q) \div d

Prep(r, c2) == [op |-> "prep", r |-> r, c2 |-> c2]
Hyp(d, s, rs, ws) == [op |-> "hyp", dst |-> d, src |-> s, rs |-> rs, ws |-> ws]
Sadd(d, sn, bn, dn, s) == [op |-> "sadd", dst |-> d, sn |-> sn, bn |-> bn, dn |-> dn, src |-> s]
Par(d, s, c2, dt2) == [op |-> "par", dst |-> d, src |-> s, c2 |-> c2, dt2 |-> dt2]
Ret(r, eff) == [op |-> "ret", r |-> r, eff |-> eff]

Schemes == {"ssprk 22", "ssprk 33", "erk 11", "erk 22", "erk 33", "erk 43",
            "erk 54", "strang ssprk 33 cn", "strang erk 33 cn",
            "strang erk 43 cn", "imex 11"}

(* One explicit substep: prepare the source at time c, then evaluate.       *)
SSP22(u, a, b, c2) ==
  << Prep(u, c2), Hyp(a, u, <<>>, <<>>), Prep(a, c2 + 2), Hyp(b, a, <<>>, <<>>),
     Sadd(b, 1, 1, 2, u) >>
SSP33(u, a, b, c2) ==
  << Prep(u, c2), Hyp(a, u, <<>>, <<>>),
     Prep(a, c2 + 2), Hyp(b, a, <<>>, <<>>), Sadd(b, 1, 3, 4, u),
     Prep(b, c2 + 1), Hyp(a, b, <<>>, <<>>), Sadd(a, 2, 1, 3, u) >>
ERK22(u, a, b, c2) ==
  << Prep(u, c2), Hyp(a, u, <<>>, <<>>), Prep(a, c2 + 2), Hyp(b, a, <<u>>, <<-Q>>) >>
ERK33(u, a, b, d, c2) ==
  << Prep(u, c2), Hyp(a, u, <<>>, <<>>), Prep(a, c2 + 2), Hyp(b, a, <<u>>, <<-Q>>),
     Prep(b, c2 + 4), Hyp(d, b, <<u, a>>, <<R(3, 4), R(-2, 1)>>) >>
ERK43(u, a, b, d, e, c2) ==
  << Prep(u, c2), Hyp(a, u, <<>>, <<>>), Prep(a, c2 + 2), Hyp(b, a, <<u>>, <<-Q>>),
     Prep(b, c2 + 4), Hyp(d, b, <<a>>, <<-Q>>),
     Prep(d, c2 + 6), Hyp(e, d, <<a, b>>, <<R(5, 3), R(-10, 3)>>) >>
(* ERK(5,4;1), rows a_ij/c in units of 10^-6 (c_i = i/5) *)
A2 == <<1000000>>
A3 == <<1303779, 696221>>
A4 == <<-1292826, 4556814, -263988>>
A5 == <<1081164, 2576711, -4083140, 4425265>>
A6 == <<-525584, 4394002, -2945170, 2310669>>
D6(x, y, i) == W6(x[i] - y[i])
ERK54 ==
  << Prep("U", 0), Hyp("T0", "U", <<>>, <<>>),
     Prep("T0", 2), Hyp("T1", "T0", <<"U">>, <<D6(A3, A2, 1)>>),
     Prep("T1", 4), Hyp("T2", "T1", <<"U", "T0">>, <<D6(A4, A3, 1), D6(A4, A3, 2)>>),
     Prep("T2", 6), Hyp("T3", "T2", <<"U", "T0", "T1">>, <<D6(A5, A4, 1), D6(A5, A4, 2), D6(A5, A4, 3)>>),
     Prep("T3", 8), Hyp("T4", "T3", <<"U", "T0", "T1", "T2">>,
                        <<D6(A6, A5, 1), D6(A6, A5, 2), D6(A6, A5, 3), D6(A6, A5, 4)>>) >>

Program(scheme) ==
  CASE scheme = "ssprk 22" -> SSP22("U", "T0", "T1", 0) \o <<Ret("T1", 1)>>
    [] scheme = "ssprk 33" -> SSP33("U", "T0", "T1", 0) \o <<Ret("T0", 1)>>
    [] scheme = "erk 11" -> << Prep("U", 0), Hyp("T0", "U", <<>>, <<>>), Ret("T0", 1) >>
    [] scheme = "erk 22" -> ERK22("U", "T0", "T1", 0) \o <<Ret("T1", 2)>>
    [] scheme = "erk 33" -> ERK33("U", "T0", "T1", "T2", 0) \o <<Ret("T2", 3)>>
    [] scheme = "erk 43" -> ERK43("U", "T0", "T1", "T2", "T3", 0) \o <<Ret("T3", 4)>>
    [] scheme = "erk 54" -> ERK54 \o <<Ret("T4", 5)>>
    [] scheme = "strang ssprk 33 cn" ->
         SSP33("U", "T0", "T1", 0)
         \o << Par("T2", "T0", 0, 2), Sadd("T2", 2, -1, 1, "T0") >>
         \o SSP33("T2", "T0", "T1", 2) \o <<Ret("T0", 2)>>
    [] scheme = "strang erk 33 cn" ->
         ERK33("U", "T0", "T1", "T2", 0)
         \o << Par("T3", "T2", 0, 6), Sadd("T3", 2, -1, 1, "T2") >>
         \o ERK33("T3", "T0", "T1", "T2", 6) \o <<Ret("T2", 6)>>
    [] scheme = "strang erk 43 cn" ->
         ERK43("U", "T0", "T1", "T2", "T3", 0)
         \o << Par("T2", "T3", 0, 8), Sadd("T2", 2, -1, 1, "T3") >>
         \o ERK43("T2", "T0", "T1", "T2", "T3", 8) \o <<Ret("T3", 8)>>
    [] scheme = "imex 11" ->
         << Prep("U", 0), Hyp("T0", "U", <<>>, <<>>), Par("T1", "T0", 0, 2), Ret("T1", 1) >>

Programs == [sc \in Schemes |-> Program(sc)]
Eff == [sc \in Schemes |-> LET p == Programs[sc] IN p[Len(p)].eff]
Parabolic(sc) == sc \in {"strang ssprk 33 cn", "strang erk 33 cn", "strang erk 43 cn", "imex 11"}
Order == [sc \in Schemes |->
   CASE sc \in {"erk 11", "imex 11"} -> 1
     [] sc \in {"ssprk 22", "erk 22"} -> 2
     [] sc \in {"erk 54"} -> 4
     [] OTHER -> 3]      \* Strang: of each explicit half

RegNames == {"U", "T0", "T1", "T2", "T3", "T4"}
Fresh == [y |-> Zero, s |-> Zero, p |-> 0, clk |-> 0, st |-> 0, prep |-> None]

VARIABLES
  conf,     \* the run: scheme, strategy, cflmax, cflmin, tmax, ranks
  pc, regs,
  attempt,  \* 1 or 2
  sweep,    \* number of preparations since the beginning of the step
  stage,    \* ... since the beginning of the attempt
  pcall,    \* number of parabolic solves since the beginning of the step
  cfl,      \* current CFL number <<num, den>>
  tau,      \* <<num, den>> in units of the reference time scale, or <<0,1>>
  failed,   \* what the ranks found in the current sub step
  restarts, warnings, prestarts, pwarnings,
  theta,    \* <<num, den>>: share of the stage combination in the source
  rows,     \* y-row of each stage (history)
  result    \* None or the state that was committed

vars == <<conf, pc, regs, attempt, sweep, stage, pcall, cfl, tau, failed,
          restarts, warnings, prestarts, pwarnings, theta, rows, result>>

NoResult == [done |-> FALSE]

InitFor(c, th) ==
  /\ conf = c /\ theta = th
  /\ pc = 1 /\ regs = [r \in RegNames |-> Fresh]
  /\ attempt = 1 /\ sweep = 0 /\ stage = 0 /\ pcall = 0
  /\ cfl = c.cflmax /\ tau = <<0, 1>> /\ failed = {}
  /\ restarts = 0 /\ warnings = 0 /\ prestarts = 0 /\ pwarnings = 0
  /\ rows = <<>> /\ result = NoResult

Op == Programs[conf.scheme][pc]
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Min2(a, b) == IF Lt(b, a) THEN b ELSE a

(* Largest admissible time-step size: the CFL bound (reference scale 1) and *)
(* the remaining time divided by the number of sub steps.                   *)
TauMax == IF conf.tmax[1] = 0 THEN cfl
          ELSE Min2(cfl, <<conf.tmax[1], conf.tmax[2] * Eff[conf.scheme]>>)

DoPrep ==
  /\ result = NoResult /\ Op.op = "prep"
  /\ regs' = [regs EXCEPT ![Op.r].prep = Op.c2, ![Op.r].st = stage]
  /\ rows' = Append(rows, regs[Op.r].y)
  /\ stage' = stage + 1 /\ sweep' = sweep + 1 /\ pc' = pc + 1
  /\ UNCHANGED <<conf, attempt, pcall, cfl, tau, failed, restarts, warnings,
                 prestarts, pwarnings, theta, result>>

E(k, v) == [j \in NK |-> IF j = k THEN v ELSE 0]
Plus(a, b) == [j \in NK |-> a[j] + b[j]]
RECURSIVE SumW(_), Combo(_, _)
SumW(w) == IF w = <<>> THEN 0 ELSE Head(w) + SumW(Tail(w))
Combo(rs, ws) == IF rs = <<>> THEN Zero
                 ELSE Plus(E(regs[Head(rs)].st, Head(ws)), Combo(Tail(rs), Tail(ws)))

(* new = src + tau * ( (1 - sum w) F(src) + sum w_s F(stage_s) )            *)
HypValue(op) ==
  LET src == regs[op.src]
      h == Plus(E(src.st, Q - SumW(op.ws)), Combo(op.rs, op.ws))
      l == E(src.st, Q)
      src_inc == [k \in NK |-> l[k] + ((h[k] - l[k]) * theta[1]) \div theta[2]]
  IN [y |-> Plus(src.y, h), s |-> Plus(src.s, src_inc), p |-> src.p,
      clk |-> src.clk + Q, st |-> 0, prep |-> None]

BangBang == conf.strategy = "bang bang control"
Raise == BangBang /\ attempt = 1

(* What the recovery does about a violation found on the ranks F: every rank *)
(* learns of it, and all of them start over from the old state with cfl min, *)
(* once; afterwards (and without a strategy) the violation is only counted.  *)
Restarted ==
  /\ attempt' = 2 /\ pc' = 1 /\ stage' = 0 /\ rows' = <<>>
  /\ cfl' = conf.cflmin /\ tau' = <<0, 1>>
  /\ UNCHANGED <<conf, regs, sweep, theta, result>>

DoHyp(F) ==
  /\ result = NoResult /\ Op.op = "hyp"
  /\ failed' = F
  /\ IF F # {} /\ Raise
     THEN /\ Restarted
          /\ restarts' = restarts + 1
          /\ UNCHANGED <<pcall, warnings, prestarts, pwarnings>>
     ELSE /\ regs' = [regs EXCEPT ![Op.dst] = HypValue(Op)]
          /\ tau' = IF tau[1] = 0 THEN TauMax ELSE tau
          /\ warnings' = warnings + (IF F # {} THEN 1 ELSE 0)
          /\ pc' = pc + 1
          /\ UNCHANGED <<conf, attempt, sweep, stage, pcall, cfl, restarts,
                         prestarts, pwarnings, theta, rows, result>>

DoSadd ==
  /\ result = NoResult /\ Op.op = "sadd"
  /\ LET a == regs[Op.dst] b == regs[Op.src]
         C(x, z) == (Op.sn * x + Op.bn * z) \div Op.dn
     IN regs' = [regs EXCEPT ![Op.dst] =
          [y |-> [k \in NK |-> C(a.y[k], b.y[k])], s |-> [k \in NK |-> C(a.s[k], b.s[k])],
           p |-> C(a.p, b.p), clk |-> C(a.clk, b.clk), st |-> 0, prep |-> None]]
  /\ pc' = pc + 1
  /\ UNCHANGED <<conf, attempt, sweep, stage, pcall, cfl, tau, failed, restarts,
                 warnings, prestarts, pwarnings, theta, rows, result>>

DoPar(F) ==
  /\ result = NoResult /\ Op.op = "par"
  /\ failed' = F /\ pcall' = pcall + 1
  /\ IF F # {} /\ Raise
     THEN /\ Restarted
          /\ prestarts' = prestarts + 1
          /\ UNCHANGED <<restarts, warnings, pwarnings>>
     ELSE /\ regs' = [regs EXCEPT ![Op.dst] =
                       [regs[Op.src] EXCEPT !.p = @ + (Op.dt2 * Q) \div 2, !.prep = None]]
          /\ pwarnings' = pwarnings + (IF F # {} THEN 1 ELSE 0)
          /\ pc' = pc + 1
          /\ UNCHANGED <<conf, attempt, sweep, stage, cfl, tau, restarts, warnings,
                         prestarts, theta, rows, result>>

DoRet ==
  /\ result = NoResult /\ Op.op = "ret"
  /\ result' = [done |-> TRUE, reg |-> regs[Op.r], tau |-> <<tau[1] * Op.eff, tau[2]>>]
  /\ UNCHANGED <<conf, pc, regs, attempt, sweep, stage, pcall, cfl, tau, failed,
                 restarts, warnings, prestarts, pwarnings, theta, rows>>

Next == \/ DoPrep \/ DoSadd \/ DoRet
        \/ \E F \in SUBSET conf.ranks : DoHyp(F)
        \/ \E F \in {{}, conf.ranks} : DoPar(F)

-----------------------------------------------------------------------------
(* Properties of the integrators *)

Done == result # NoResult

(* A stage is evaluated for exactly the time it approximates, with          *)
(* boundary data and precomputed values prepared for that register.         *)
StageTimes ==
  (~Done /\ Op.op = "prep") => 2 * regs[Op.r].clk = Op.c2 * Q
PreparedBeforeUse ==
  (~Done /\ Op.op = "hyp") =>
     /\ regs[Op.src].prep # None
     /\ \A i \in 1..Len(Op.rs) : regs[Op.rs[i]].prep # None

(* The state advances by exactly the returned step; parabolic time too.     *)
Advance ==
  Done => /\ result.reg.clk = Eff[conf.scheme] * Q
          /\ Parabolic(conf.scheme) => result.reg.p = Eff[conf.scheme] * Q

(* The step never exceeds the CFL bound or the requested final time.        *)
StepSize ==
  Done => /\ ~Lt(cfl, tau)
          /\ conf.tmax[1] # 0 => ~Lt(conf.tmax, result.tau)
          /\ tau = TauMax

(* Recovery: at most one retry, only with bang bang control; a retry starts *)
(* from the old state; nothing of the aborted attempt survives.             *)
Recovery ==
  /\ attempt = 2 => BangBang /\ cfl = conf.cflmin
  /\ attempt = 1 => cfl = conf.cflmax /\ restarts + prestarts = 0
  /\ restarts + prestarts = attempt - 1
  /\ regs["U"].y = Zero /\ regs["U"].p = 0 /\ regs["U"].clk = 0
  /\ (BangBang /\ attempt = 1) => warnings + pwarnings = 0

(* Order conditions for the stage tableau, in the fixed point unit Q.       *)
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0
                    ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOver(f, S \ {x})
Fix(a, b) == (a * b) \div Q
b_ == result.reg.y
A(k, j) == rows[k + 1][j]
CC(k) == LET f(j) == A(k, j) IN SumOver(f, NK)
ST == 0..(Len(rows) - 1)
Ac(k) == LET f(j) == Fix(A(k, j), CC(j)) IN SumOver(f, ST)
Acc(k) == LET f(j) == Fix(A(k, j), Fix(CC(j), CC(j))) IN SumOver(f, ST)
AAc(k) == LET f(j) == Fix(A(k, j), Ac(j)) IN SumOver(f, ST)
S1 == LET f(j) == b_[j] IN SumOver(f, ST)
S2 == LET f(j) == Fix(b_[j], CC(j)) IN SumOver(f, ST)
S3a == LET f(j) == Fix(b_[j], Fix(CC(j), CC(j))) IN SumOver(f, ST)
S3b == LET f(j) == Fix(b_[j], Ac(j)) IN SumOver(f, ST)
S4a == LET f(j) == Fix(b_[j], Fix(CC(j), Fix(CC(j), CC(j)))) IN SumOver(f, ST)
S4b == LET f(j) == Fix(b_[j], Fix(CC(j), Ac(j))) IN SumOver(f, ST)
S4c == LET f(j) == Fix(b_[j], Acc(j)) IN SumOver(f, ST)
S4d == LET f(j) == Fix(b_[j], AAc(j)) IN SumOver(f, ST)
e_ == Eff[conf.scheme]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
(* fixed point errors: relative 1/125 for the irrational ERK(5,4;1), 1/200 Q else *)
Tol == IF conf.scheme = "erk 54" THEN Q ELSE Q \div 200

OrderConditions ==
  (Done /\ ~Parabolic(conf.scheme)) =>
    LET o == Order[conf.scheme] IN
    /\ Near(S1, e_ * Q, 3)
    /\ o >= 2 => Near(2 * S2, e_ * e_ * Q, Tol)
    /\ o >= 3 => /\ Near(3 * S3a, e_ * e_ * e_ * Q, Tol)
                 /\ Near(6 * S3b, e_ * e_ * e_ * Q, Tol)
    /\ o >= 4 => /\ Near(4 * S4a, e_ * e_ * e_ * e_ * Q, 5 * Tol)
                 /\ Near(8 * S4b, e_ * e_ * e_ * e_ * Q, 5 * Tol)
                 /\ Near(12 * S4c, e_ * e_ * e_ * e_ * Q, 5 * Tol)
                 /\ Near(24 * S4d, e_ * e_ * e_ * e_ * Q, 5 * Tol)

(* Strang splitting: hyperbolic half, parabolic whole, hyperbolic half.     *)
StrangSymmetric ==
  (Done /\ Parabolic(conf.scheme) /\ conf.scheme # "imex 11") =>
    LET h == Len(rows) \div 2
        f(j) == b_[j]
    IN /\ 2 * SumOver(f, 0..(h - 1)) = e_ * Q
       /\ 2 * SumOver(f, h..(2 * h - 1)) = e_ * Q

(* With the consistent source model source and flux tokens agree.           *)
SourceConsistent ==
  (Done /\ theta = <<1, 1>>) => result.reg.s = result.reg.y
=============================================================================
