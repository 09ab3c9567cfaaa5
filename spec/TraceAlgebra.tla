---------------------------- MODULE TraceAlgebra ----------------------------
(* Values of the real state algebra.  A trace: [P, items]; items
     [e |-> "alg", U, r]           r: everything the view computes for the conserved state U
     [e |-> "prim", W, r]          r.U, r.init: conserved states of the primitive / initial state W
     [e |-> "galilei", U, M, r]    momentum of U replaced by M
     [e |-> "bc", id, U, n, D, r]                                                            *)
EXTENDS Algebra, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos
Tr == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1
Tol == "1e-12"
Fin(s) == \A k \in 1..Len(s) : s[k] \notin {"nan", "inf", "-inf"}
Has(r, f) == f \in DOMAIN r
(* condition: the internal energy is a difference *)
EMag(P, U) == RSum(<<RAbs(U[Len(U)]), RAbs(KineticD(P, DPoint(U))[1]),
                     IF P.eq = "aeos" THEN RAdd(RMul(RAbs(P.L.q), U[1]), P.L.pinf) ELSE "0">>)
Gas(P, U, r, s) ==
  LET V == TLCEval(DPoint(U))
      E == TLCEval(IntED(P, V)[1])
      mag == TLCEval(EMag(P, U))
      k == RDiv(mag, E)                            \* condition number
      kt == RMul(k, Tol)
      rel(x, y, t) == Near(x, y, RAbs(y), t)
      N == Len(U)
      pow(x, y, a, t) ==                           \* x = y^a
         RLe(RMul(x, RSub("1", t)), RPowerUp(y, a)) /\ RLe(RPowerDown(y, a), RMul(x, RAdd("1", t)))
  IN /\ r.rho = U[1] /\ r.E = U[N] /\ r.m = SubSeq(U, 2, N - 1)
     /\ Near(r.e, E, mag, Tol)
     /\ \A d \in 1..N : LET sl == TLCEval(IntED(P, DUnit(U, d))[2]) IN rel(r.de[d], sl, Tol)
     /\ (RLt("0", E) => r.ok \/ P.eq = "aeos")
     /\ (P.eq = "euler" /\ RLt(E, RNeg(RMul(mag, Tol))) => ~r.ok)
     /\ (P.eq = "euler" /\ RLt(RMul("1000000", Tol), RDiv(E, mag)) =>
           LET w == TLCEval(HartenD(P, V)[1])
           IN /\ rel(r.p, PressureD(P, V)[1], kt)
              /\ RLt("0", r.c) /\ rel(RMul(r.c, r.c), SpeedC2(P, U), kt)
              /\ pow(RDiv(r.s, r.e), RDiv("1", U[1]), P.gamma, kt)
              /\ pow(r.harten, w, RDiv("1", RAdd(P.gamma, "1")), kt)
              /\ \A d \in 1..N : LET x == RMul(r.harten, EntropyLog(P, "harten", DUnit(U, d))) IN rel(r.dharten[d], x, kt)
              /\ pow(r.eta, r.p, RDiv("1", P.gamma), kt)
              /\ \A d \in 1..N : LET x == RMul(r.eta, EntropyLog(P, "pressure", DUnit(U, d))) IN rel(r.deta[d], x, kt))
     /\ (P.eq = "aeos" /\ RLt(RMul("1000000", Tol), RDiv(E, mag)) =>
           LET e == RDiv(E, U[1])  p == TLCEval(EosP(P.L, DC(U[1]), DC(e))[1])
               c2 == TLCEval(EosC2(P.L, U[1], e))
               pe == TLCEval(RAbs(EosP(P.L, DC(U[1]), DX(e))[2]))
               cmag == RAdd(RAbs(EosP(P.L, DX(U[1]), DC(e))[2]), RDiv(RMul(RAbs(p), pe), RMul(U[1], U[1])))
               pmag == RSum(<<RAbs(p), RDiv(RMul(pe, mag), U[1]), s.pmag>>)
               sh == TLCEval(ShiftD(P, V)[1])
               cov == CovD(P, V)[1]
               smag == RDiv(RAdd(mag, RDiv(pmag, "1")), RAbs(sh))
               g == "11/8"
           IN /\ Near(r.eos_p, p, pmag, Tol)
              /\ Near(r.eos_T, EosT(P.L, DC(U[1]), DC(e))[1], RAdd(RAbs(EosT(P.L, DC(U[1]), DC(e))[1]), RDiv(RAdd(RDiv(mag, U[1]), s.tmag), P.L.cv)), Tol)
              /\ (RLt("1b-20", RDiv(c2, RAdd(cmag, RDiv(pmag, U[1])))) => RLt("0", r.eos_c) /\ Near(RMul(r.eos_c, r.eos_c), c2, RAdd(cmag, RDiv(pmag, U[1])), "1e-10"))
              /\ Near(r.eos_e, e, RSum(<<RAbs(e), RDiv(pmag, pe), RDiv(mag, U[1])>>), "1e-11")
              /\ (RLt("1b-20", RDiv(sh, RAdd(mag, pmag))) /\ RLt("0", cov) =>
                    LET st == RMul(Tol, RMul(smag, RAdd("1", RDiv("1", cov))))
                    IN /\ r.ok
                       \* p and its surrogate exponent determine each other
                       /\ Near(RMul(RSub(r.sgamma, "1"), sh), RMul(RAdd(r.eos_p, P.L.pinf), cov), RMul(RAdd(mag, pmag), RAdd("1", RAbs(r.sgamma))), RMul(Tol, smag))
                       /\ Near(r.sp, RSub(RMul(RSub(g, "1"), RDiv(RSub(E, RMul(P.L.q, U[1])), cov)), RMul(g, P.L.pinf)), RDiv(RAdd(mag, P.L.pinf), cov), Tol)
                       /\ pow(r.ss, RDiv(RMul(RPowerDown(RDiv(cov, U[1]), g), sh), cov), "1", st)
                       /\ pow(r.sh, RMul(RMul(U[1], sh), RPowerDown(cov, RSub(g, "1"))), RDiv("1", RAdd(g, "1")), st)
                       /\ \A d \in 1..N : LET x == RMul(r.sh, SurrogateLog(P, DUnit(U, d), g))
                                              w == RMul(RDiv(RMul(r.sh, IF d = 1 THEN RDiv(RAdd(mag, pmag), U[1]) ELSE "0"), sh), RDiv("1", cov))
                                          IN Near(r.dsh[d], x, RAdd(RAbs(x), w), st)))
     \* flux and conversions
     /\ LET pr == IF P.eq = "aeos" THEN r.eos_p ELSE r.p
            pm == IF P.eq = "aeos" THEN s.pmag ELSE "0"
            v == [d \in 1..N - 2 |-> RDiv(U[1 + d], U[1])]
            x(j, d) == IF j = 1 THEN U[1 + d] ELSE IF j = N THEN RMul(v[d], RAdd(U[N], pr))
                       ELSE RAdd(RMul(U[j], v[d]), IF j = 1 + d THEN pr ELSE "0")
            xm(j, d) == IF j = N THEN RMul(RAbs(v[d]), RSum(<<RAbs(U[N]), RAbs(pr), mag, pm>>)) ELSE RSum(<<RAbs(x(j, d)), IF j > 1 /\ j # N THEN RAdd(RAbs(pr), RMul(RAbs(U[j]), RAbs(v[d]))) ELSE "0">>)
        IN \A j \in 1..N : \A d \in 1..N - 2 : Near(r.flux[j][d], x(j, d), xm(j, d), Tol)
     /\ LET w == ToPrimitive(P, U)
        IN \A j \in 1..N : Near(r.prim[j], w[j], IF j = N THEN (IF P.eq = "aeos" THEN RDiv(mag, U[1]) ELSE RMul(mag, P.gamma)) ELSE RAbs(w[j]), Tol)
     /\ \A j \in 1..N : Near(r.back[j], U[j], IF j = N THEN mag ELSE RAbs(U[j]), Tol)

Water(P, U, r) ==
  LET V == DPoint(U)  rel(x, y) == Near(x, y, RAbs(y), Tol)
      N == Len(U)
      kin == KineticD(P, V)[1]  p == PressureD(P, V)[1]
      etaD(X) == DAdd(PressureD(P, X), KineticD(P, X))
      fl(j, d) == FluxD(P, V, [k \in 1..N - 1 |-> IF k = d THEN "1" ELSE "0"])[j][1]
      adv(j, d) == IF j = 1 + d THEN RSub(fl(j, d), p) ELSE fl(j, d)
  IN /\ r.rho = U[1] /\ r.m = Tail(U) /\ r.ok
     /\ rel(r.p, p) /\ rel(r.kinetic, kin) /\ rel(r.eta, RAdd(p, kin))
     /\ RLe("0", r.c) /\ rel(RMul(r.c, r.c), SpeedC2(P, U))
     /\ \A d \in 1..N : Near(r.deta[d], etaD(DUnit(U, d))[2], RAdd(RAbs(etaD(DUnit(U, d))[2]), IF d = 1 THEN RAdd(RMul(P.gravity, U[1]), RDiv(kin, U[1])) ELSE "0"), Tol)
     /\ \A j \in 1..N : \A d \in 1..N - 1 : rel(r.flux[j][d], fl(j, d)) /\ Near(r.advective[j][d], adv(j, d), RAbs(fl(j, d)), Tol)
     /\ LET w == ToPrimitive(P, U) IN \A j \in 1..N : rel(r.prim[j], w[j]) /\ rel(r.back[j], U[j])

Scalar(P, U, r) ==
  LET u == U[1]  mag == RAdd("1", RPow(RAdd(RAbs(u), "1"), 3))
      unit(d) == [k \in 1..Len(P.poly) |-> IF k = d THEN "1" ELSE "0"]
      k == "1/4"
      kd(X) == IF RLe(k, u) THEN DSub(X, DC(k)) ELSE DSub(DC(k), X)
  IN /\ r.ok /\ r.prim = U /\ r.back = U
     /\ Near(r.sq, RMul("1/2", RMul(u, u)), RMul(u, u), Tol)
     /\ Near(r.dsq, DMul(DX(u), DC(u))[2], RAbs(u), Tol)
     /\ Near(r.kruzkov, kd(DX(u))[1], RAdd(RAbs(u), "1"), Tol) /\ REq(r.dkruzkov, kd(DX(u))[2])
     /\ \A d \in 1..Len(P.poly) :
          /\ Near(r.flux[d], FluxD(P, <<DC(u)>>, unit(d))[1][1], mag, P.tol)
          /\ Near(r.dflux[d], FluxD(P, <<DX(u)>>, unit(d))[1][2], mag, P.dtol)

Alg(P, s) ==
  IF P.eq \in {"euler", "aeos"} THEN Gas(P, s.U, s.r, s) ELSE IF P.eq = "sw" THEN Water(P, s.U, s.r) ELSE Scalar(P, s.U, s.r)
Prim(P, s) ==
  LET x == FromPrimitive(P, s.W)  N == Len(s.W)
      init == IF P.eq = "aeos"                   \* initial states are given by density, velocity, pressure
              THEN s.r.init[1] = s.W[1] /\ SubSeq(s.r.init, 2, N - 1) = SubSeq(s.r.U, 2, N - 1)
                   /\ LET E == RSub(s.r.init[N], RSub(x[N], RMul(s.W[1], s.W[N])))     \* rho e
                          p == EosP(P.L, DC(s.W[1]), DC(RDiv(E, s.W[1])))[1]
                          mag == RSum(<<RAbs(s.W[N]), s.pmag, RMul(P.L.gamma, RAdd(RAbs(x[N]), RMul(RAbs(P.L.q), s.W[1])))>>)
                      IN Near(p, s.W[N], RDiv(mag, CovD(P, DPoint(x))[1]), "1e-11")
              ELSE IF P.eq = "scalar" THEN TRUE ELSE s.r.init = s.r.U
  IN /\ \A j \in 1..N : Near(s.r.U[j], x[j], RAbs(x[j]), Tol)
     /\ init
     /\ (Has(s.r, "expand") =>
           IF P.eq = "scalar" THEN s.r.expand = s.W
           ELSE s.r.expand = [j \in 1..N |-> IF j <= 2 THEN s.W[j] ELSE IF P.eq # "sw" /\ j = N THEN s.W[N] ELSE "0"])
Galilei(P, s) ==
  P.eq = "scalar" \/ (/\ s.r.seen = BMom(P, s.U)
                      /\ s.r.U = [k \in 1..Len(s.U) |-> IF k \in BRange(P, s.U) THEN s.M[k - 1] ELSE s.U[k]])
SquareOf(P, c, U) == Near(RMul(c, c), SpeedC2(P, U), RDiv(RMul(RMul(P.gamma, P.gamma), EMag(P, U)), U[1]), Tol)
Bc(P, s) ==
  /\ s.r.error = "" /\ Fin(s.r.U)
  /\ LET c == IF s.id = "dynamic" THEN <<s.r.c, s.r.cd, s.r.cr>> ELSE <<"0", "0", "0">>
     IN Boundary(P, s.id, s.U, s.n, s.D, s.r.U, c, "1e-10")
(* a node after preparation: boundary entries b, state before and after, precomputed values pc; nb: states of
   the stencil; g: copies on other processes *)
SharpDepth(h, hc) == RMax(h, hc)
Precomputed(P, s) ==
  LET U == s.U  c == s.pc  N == Len(U)
      V == DPoint(U)
      pow(x, y, a, t) == RLe(RMul(x, RSub("1", t)), RPowerUp(y, a)) /\ RLe(RPowerDown(y, a), RMul(x, RAdd("1", t)))
      E == TLCEval(IntED(P, V)[1])
      kt == RMul(RDiv(EMag(P, U), E), "1e-12")
      unit(d) == [k \in 1..Len(P.poly) |-> IF k = d THEN "1" ELSE "0"]
      \* polytropic gas
      sg(X) == RAdd("1", RDiv(EosP(P.L, DC(X[1]), DDiv(IntED(P, DPoint(X)), DC(X[1])))[1], IntED(P, DPoint(X))[1]))
      gmin == RMinSeq([k \in 1..Len(s.nb) |-> sg(s.nb[k])])
  IN CASE P.eq = "euler" ->
            /\ pow(c[2], RMul(U[1], E), RDiv("1", RAdd(P.gamma, "1")), kt)
            /\ pow(RDiv(c[1], E), RDiv("1", U[1]), P.gamma, kt)
       [] P.eq = "aeos" ->
            /\ Near(c[1], EosP(P.L, DC(U[1]), DC(RDiv(E, U[1])))[1], EMag(P, U), "1e-12")
            /\ Near(c[2], gmin, "1", RMul("100", kt))
            /\ pow(RDiv(c[3], E), RDiv("1", U[1]), c[2], RMul("100", kt))
            /\ pow(c[4], RMul(U[1], E), RDiv("1", RAdd(c[2], "1")), RMul("100", kt))
       [] P.eq = "sw" ->
            /\ Near(c[1], RAdd(PressureD(P, V)[1], KineticD(P, V)[1]), RAdd(PressureD(P, V)[1], KineticD(P, V)[1]), "1e-12")
            /\ pow(c[2], U[1], "4/3", "1e-12")
       [] P.eq = "scalar" -> \A d \in 1..Len(P.poly) :
            LET m == RAdd("1", RPow(RAdd(RAbs(U[1]), "1"), 3))
            IN /\ Near(c[d], FluxD(P, <<DC(U[1])>>, unit(d))[1][1], m, P.tol)
               /\ Near(c[Len(P.poly) + d], FluxD(P, <<DX(U[1])>>, unit(d))[1][2], m, P.dtol)
Node(P, s) ==
  LET B == P.box
      D == TLCEval(Affine(P, P.data, s.x, s.t))
  IN /\ BoundaryMapOf(B, s.x, s.b, "1e-10")
     /\ (s.b = <<>> => s.U = s.pre)
     /\ Fin(s.U) /\ Treated(P, s.pre, s.b, D, s.U, "1e-9")
     /\ \A k \in 1..Len(s.g) : s.g[k] = <<s.U, s.pc>>
     /\ Precomputed(P, s)
Explained(P, s) == CASE s.e = "node" -> Node(P, s) [] s.e = "alg" -> Alg(P, s) [] s.e = "prim" -> Prim(P, s) [] s.e = "galilei" -> Galilei(P, s) [] s.e = "bc" -> Bc(P, s)
TraceNext ==
  \/ /\ pos <= Len(Tr.items)
     /\ \E t \in {Tr} : Explained(t.P, t.items[pos]) = TRUE
     /\ pos' = pos + 1
     /\ UNCHANGED tid
  \/ /\ pos > Len(Tr.items)
     /\ PrintT("ACC " \o ToJson([tid |-> tid]))
     /\ UNCHANGED <<tid, pos>>
=============================================================================
