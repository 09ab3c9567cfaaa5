---------------------------- MODULE TraceInitial ----------------------------
(* Initial states evaluated by the code.  A trace is P (equation) and items, each with the configuration `name`, its
   parameters c, the frame (dir, pos), and what was evaluated. *)
EXTENDS Initial, Json, IOUtils
CONSTANT Bump       \* TRUE: the flow over a bump has to satisfy its jump conditions
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
tvars == <<tid, pos>>
T == Traces[tid]
P == T.P
I == T.items[pos]
Y == Frame(I.pos, I.dir, I.x)
Zv == [k \in 1..Len(I.x) |-> RSub(I.x[k], I.pos[k])]

Value1 ==      \* the documented state and bathymetry
  /\ Finite(I.U) /\ Positive(P, I.U)
  /\ \E y \in {Y} : IsState(P, I.U, Expected(P, I.name, I.c, I.dir, y, Zv, I.t), I.tol)
       /\ I.z # <<>> => \E b \in {Bathymetry(P, I.name, I.c, y)} : Near(I.z[1], b, RAdd("1", RAbs(b)), I.tol)
Bath == \E y \in {Y} : \E b \in {Bathymetry(P, I.name, I.c, y)} : Near(I.z[1], b, RAdd("1", RAbs(b)), I.tol)
Adm == Finite(I.U) /\ Positive(P, I.U)
Pde == Solves(P, I.T, I.X, I.Z, I.k, I.h, I.tol)
(* a front seen at two times *)
Front ==
  LET s == RDiv(RSub(I.x[2], I.x[1]), RSub(I.t[2], I.t[1]))
  IN /\ Jumps(P, I.L, I.R, s, I.n, I.tol)
     /\ \A k \in 1..Len(I.speed) : Near(s, I.speed[k], RAdd(RAbs(s), "1e-3"), "1e-9")
Jump == Jumps(P, I.L, I.R, I.s, I.n, I.tol)
(* steady flow over a bump: discharge, energy head, and the branch on either side of the crest *)
Steady ==
  LET h == I.U[1]  q == I.c.q  g == P.gravity
      head == RSum(<<h, RDiv(Sq(q), RMul(RMul("2", g), Sq(h))), I.z[1]>>)
      fr2 == RDiv(Sq(q), RMul(g, RPow(h, 3)))
  IN /\ Near(I.U[2], q, q, "1e-12") /\ \A k \in 3..Len(I.U) : REq(I.U[k], "0")
     /\ LET after == I.c.case = "transcritical" /\ RLt("11.7", Y[1])       \* the jump dissipates energy
            past == RAdd("0.28205279813802181", RDiv(Sq(q), RMul(RMul("2", g), Sq("0.28205279813802181"))))
        IN (~after \/ ~Bump \/ Near(head, past, past, "1e-6"))
           /\ (after \/ Near(head, I.c.head, I.c.head, "1e-6"))
           /\ IF I.c.case = "transcritical" /\ In(Y[1], "10", "11.7") THEN RLt("1", fr2) ELSE RLt(fr2, "1")
BumpJump == Bump => Jumps(P, I.L, I.R, "0", Len(I.L) - 1, I.tol)
(* simple wave of the first family: entropy and Riemann invariant everywhere, u - c = x/t inside the fan *)
Fan ==
  LET g == P.gamma  rho == I.U[1]  y == Y[1]
      u == RDiv(RDot(FrameDir(I.dir), BMom(P, I.U)), rho)  p == Press(P, I.U)
      cc == Root(RDiv(RMul(g, p), rho))  c0 == Root(RDiv(g, "3"))
      k == RDiv("2", RSub(g, "1"))
      ul(r) == RAdd(c0, RMul(k, RSub(c0, RMul(c0, RPower(RDiv(r, "3"), RDiv(RSub(g, "1"), "2"))))))
      cr == RMul(c0, RPower("1/6", RDiv(RSub(g, "1"), "2")))  ur == ul("1/2")
      t == RAdd(I.t, RDiv("1/5", RSub(ur, c0)))
      xi == RDiv(y, t)
  IN /\ Near(RAdd(u, RMul(k, cc)), RAdd(c0, RMul(k, c0)), RMul(k, c0), I.tol)
     /\ Near(p, RPower(RDiv(rho, "3"), g), "1", I.tol)
     /\ IF RLe(xi, "0") THEN Near(rho, "3", "3", I.tol)
        ELSE IF RLe(RSub(ur, cr), xi) THEN Near(rho, "1/2", "1/2", I.tol) ELSE Near(RSub(u, cc), xi, c0, I.tol)
(* viscous shock profile: five equidistant states X at the times I.t, moving with the velocity V.  In the moving frame the
   viscous fluxes of mass, momentum and energy equal those of the state on the left. *)
Viscous ==
  LET g == P.gamma
      w(U) == RSub(RDiv(U[2], U[1]), I.c.V)
      e(U) == RDiv(RSub(U[Len(U)], RDiv(Sq(U[2]), RMul("2", U[1]))), U[1])
      ws == [j \in 1..5 |-> w(I.X[j])]  es == [j \in 1..5 |-> e(I.X[j])]
      U == I.X[3]  v == ws[3]  ee == es[3]  rho == U[1]
      p == RMul(RSub(g, "1"), RMul(rho, ee))
      dv == RDiv(Diff(ws), I.h)  de == RDiv(Diff(es), I.h)
      mu == RMul("4/3", I.c.mu)       \* Prandtl number 3/4: the heat flux is gamma (4/3 mu) e_x
      L == I.c.vl  rl == I.c.rho
      (* internal energy on the left: from R = (g+1)/(g-1) *)
      el == RDiv(RSub(RMul(RDiv(RAdd(g, "1"), RSub(g, "1")), RMul(L, I.c.vr)), Sq(L)), RMul("2", g))
      pl == RMul(RSub(g, "1"), RMul(rl, el))
      flux(r, a, q, pp, da, dq) ==
        <<RMul(r, a), RSub(RAdd(RMul(r, Sq(a)), pp), RMul(mu, da)),
          RSub(RSub(RMul(a, RAdd(RMul(r, RAdd(q, RMul("1/2", Sq(a)))), pp)), RMul(mu, RMul(a, da))), RMul(RMul(g, mu), dq))>>
      A == flux(rho, v, ee, p, dv, de)  B == flux(rl, L, el, pl, "0", "0")
  IN \A k \in 1..3 : Near(A[k], B[k], RAbs(B[k]), I.tol)
Slope1 == LET h == I.U[1]  a == RDiv(Sq(RMul(I.c.n, I.c.q)), I.c.slope)
          IN Near(RPow(h, 10), RPow(a, 3), RPow(a, 3), "1e-11")
             /\ Near(RDot(FrameDir(I.dir), Tail(I.U)), I.c.q, I.c.q, "1e-12")
Ramp == LET th == RDiv(RSub(I.t, I.c.ti), RSub(I.c.tf, I.c.ti))
            a == IF RLe(th, "0") THEN "1" ELSE IF RLe("1", th) THEN "0" ELSE Sq(Cos(RMul(RMul("1/2", Pi), th)))
        IN /\ IsState(P, I.A, Along(I.dir, I.c.A), I.tol) /\ IsState(P, I.B, Along(I.dir, I.c.B), I.tol)
           /\ \A k \in 1..Len(I.U) : Near(I.U[k], RAdd(RMul(a, I.A[k]), RMul(RSub("1", a), I.B[k])), RAdd(RAbs(I.A[k]), RAbs(I.B[k])), I.tol)
(* every degree of freedom holds its own value, V[n] evaluated at its position, up to the perturbation *)
Interp ==
  /\ \A n \in 1..Len(I.V) : \A k \in 1..Len(I.V[n]) :
       Near(I.U[n][k], I.V[n][k], RAbs(I.V[n][k]), RAdd(I.amp, "1e-10")) \/ RLe(RAbs(RSub(I.U[n][k], I.V[n][k])), "1e-12")
  /\ \A n \in 1..Len(I.W) : \A k \in 1..Len(I.W[n]) : RLe(RAbs(RSub(I.Z[n][k], I.W[n][k])), RMul("1e-10", RAdd("1", RAbs(I.W[n][k]))))
  /\ RLt("0", I.amp) => \E n \in 1..Len(I.V) : RLt(RMul(RMul("1/10", I.amp), RAbs(I.V[n][1])), RAbs(RSub(I.U[n][1], I.V[n][1])))

Ok == CASE I.e = "value" -> Value1 [] I.e = "pde" -> Pde [] I.e = "front" -> Front [] I.e = "jump" -> Jump
        [] I.e = "steady" -> Steady [] I.e = "bumpjump" -> BumpJump [] I.e = "fan" -> Fan [] I.e = "viscous" -> Viscous
        [] I.e = "slope" -> Slope1 [] I.e = "ramp" -> Ramp [] I.e = "interp" -> Interp [] I.e = "adm" -> Adm [] I.e = "bath" -> Bath
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
TraceNext ==
  \/ pos <= Len(T.items) /\ Ok = TRUE /\ pos' = pos + 1 /\ UNCHANGED tid
  \/ pos = Len(T.items) + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
