------------------------------ MODULE Initial ------------------------------
(***************************************************************************)
(* Initial states: what every selectable configuration shows at a point    *)
(* and time.  A configuration is given in its own frame (origin pos, first *)
(* axis dir); where it is an exact solution it must satisfy the            *)
(* conservation law between its fronts, the jump conditions at its fronts, *)
(* and the formula given in its documentation.                             *)
(*                                                                         *)
(* P: equation (Physics, Algebra); c: parameters of the configuration;     *)
(* y: coordinates in the frame, z = x - pos, d: unit direction, t: time.   *)
(* A state is given as [r: density, m: momentum, p: pressure].             *)
(***************************************************************************)
EXTENDS Algebra
Pi == "3.14159265358979323846264338327950288419716939937510"
Root(a) == RMul("1/2", RAdd(RRootDown(a, 2, 120), RRootUp(a, 2, 120)))
Sq(a) == RMul(a, a)
RExp(a) == RMul("1/2", RAdd(RExpDown(a), RExpUp(a)))
RPower(a, x) == RMul("1/2", RAdd(RPowerDown(a, x), RPowerUp(a, x)))
Sum3(a, b, c) == RAdd(a, RAdd(b, c))
RECURSIVE Chebyshev(_, _)
Chebyshev(n, x) == IF n = 0 THEN "1" ELSE IF n = 1 THEN x
                   ELSE RDown(RSub(RMul(RMul("2", x), Chebyshev(n - 1, x)), Chebyshev(n - 2, x)), 200)

(* In one dimension a frame has no orientation.  In three dimensions the direction does not fix the frame:
   y has a meaning beyond the first coordinate only if the direction is the first unit vector *)
Frame(o, a, x) ==
  LET z == [k \in 1..Len(x) |-> RSub(x[k], o[k])]
  IN IF Len(x) < 3 THEN ToFrame(o, a, x) ELSE [k \in 1..3 |-> IF k = 1 THEN RDot(FrameDir(a), z) ELSE z[k]]
(* the vector with the components u, v of the frame *)
Vec(a, u, v) ==
  LET d == FrameDir(a)
  IN IF Len(a) = 1 THEN <<u>> ELSE IF Len(a) = 2 THEN FromFrame(a, <<u, v>>) ELSE [k \in 1..3 |-> RMul(u, d[k])]
Scale(s, v) == [k \in 1..Len(v) |-> RMul(s, v[k])]
State(r, v, p) == [r |-> r, m |-> Scale(r, v), p |-> p]
(* (rho, u, p) and (h, u) along the direction *)
Along(a, w) == State(w[1], IF Len(w) = 1 THEN <<>> ELSE Vec(a, w[2], "0"), IF Len(w) = 3 THEN w[3] ELSE "0")

(* Polytropic gas with covolume b behind a shock that runs with mach times the speed of sound into w = (rho, u, p) *)
SoundOf(g, b, w) == Root(RDiv(RMul(g, w[3]), RMul(w[1], RSub("1", RMul(b, w[1])))))
BehindShock(g, b, w, S) ==
  LET vol == RDiv("1", w[1])
      c2 == RDiv(RMul(g, w[3]), RMul(w[1], RSub("1", RMul(b, w[1]))))
      M2 == RDiv(Sq(RSub(S, w[2])), c2)
      free == RMul(RSub(vol, b), RDiv(RAdd(RMul(RSub(g, "1"), M2), "2"), RMul(RAdd(g, "1"), M2)))
      r == RDiv("1", RAdd(b, free))
      u == RAdd(S, RMul(RDiv(w[1], r), RSub(w[2], S)))           \* mass
      p == RAdd(w[3], RMul(RMul(w[1], Sq(RSub(S, w[2]))), RSub("1", RDiv(w[1], r))))     \* momentum
  IN <<r, u, p>>

Poly(a, y, t) == RAdd(RAdd(RAdd(a[1], RMul(a[2], y[1])), IF Len(y) = 2 THEN RMul(a[3], y[2]) ELSE "0"), RAdd(RMul(a[4], t), RMul(a[5], Sq(y[1]))))
Swirl(c, y, t) ==      \* velocity profile of the vortices: beta/(2 pi) exp((1 - r^2)/2), centre moves with the velocity mach
  LET b == <<RSub(y[1], RMul(c.mach, t)), y[2]>>
      f == RMul(RDiv(c.beta, RMul("2", Pi)), RExp(RMul("1/2", RSub("1", RDot(b, b)))))
  IN [b |-> b, f |-> f, v |-> <<RSub(c.mach, RMul(f, b[2])), RMul(f, b[1])>>]

---------------------------------------------------------------------------
Gas(P, name, c, a, y, z, t) ==
  LET g == P.gamma
      r2 == RDot(z, z)  r == Root(r2)
  IN
  CASE name = "uniform" -> Along(a, c.W)
    [] name = "contrast" -> Along(a, IF RLt("0", y[1]) THEN c.R ELSE c.L)
    [] name = "three state contrast" ->
         Along(a, IF RLe(RAdd(c.left, c.middle), y[1]) THEN c.R ELSE IF RLe(c.left, y[1]) THEN c.M ELSE c.L)
    [] name = "four state contrast" ->
         LET w == IF RLe("0", y[2]) THEN (IF RLe("0", y[1]) THEN c.tr ELSE c.tl) ELSE IF RLe("0", y[1]) THEN c.br ELSE c.bl
         IN State(w[1], Vec(a, w[2], w[3]), w[4])
    [] name = "radial contrast" -> Along(a, IF RLt(Sq(c.radius), r2) THEN c.R ELSE c.L)
    [] name = "smooth wave" ->
         LET x == RSub(y[1], RMul(c.mach, t))  l == "1/10"  h == "3/10"
             w == RMul("64", RDiv(RPow(RMul(RSub(x, l), RSub(h, x)), 3), RPow(RSub(h, l), 6)))
         IN Along(a, <<IF RLe(l, x) /\ RLe(x, h) THEN RAdd(c.rho, w) ELSE c.rho, c.mach, c.p>>)
    [] name = "shock front" ->
         LET S == RMul(c.mach, SoundOf(g, P.L.b, c.R))
         IN Along(a, IF RLt(RMul(S, t), y[1]) THEN c.R ELSE BehindShock(g, P.L.b, c.R, S))
    [] name = "isentropic vortex" ->
         LET s == Swirl(c, y, t)
             T == RSub("1", RMul(RDiv(RSub(g, "1"), RMul("2", g)), Sq(s.f)))
             rho == RPower(T, RDiv("1", RSub(g, "1")))
         IN State(rho, Vec(a, s.v[1], s.v[2]), RMul(rho, T))
    [] name = "leblanc" -> Along(a, IF RLt(y[1], RMul("-1/3", t)) THEN <<"1", "0", "1/15">> ELSE <<"1/1000", "0", "1/15000000000">>)
    [] name = "noh" ->
         LET n == Len(z)
             inner == RLt(r, RMul(RMul("1/2", RMul(c.u, RSub(g, "1"))), t))
             k == RDiv(RAdd(g, "1"), RSub(g, "1"))
             rho == IF inner THEN RMul(c.rho, RPow(k, n)) ELSE RMul(c.rho, RPow(RAdd("1", RDiv(RMul(c.u, t), r)), n - 1))
         IN State(rho, Scale(IF inner THEN "0" ELSE RNeg(RDiv(c.u, r)), z),
                  IF inner THEN RMul(RMul("1/2", RSub(g, "1")), RMul(rho, Sq(c.u))) ELSE c.p)
    [] name = "astro jet" -> Along(a, IF RLt(y[1], "1e-12") /\ RLe(RAbs(y[2]), c.width) THEN c.L ELSE c.R)
    [] name = "icf like" ->
         LET S == RMul(c.mach, SoundOf(g, P.L.b, c.R))  w == BehindShock(g, P.L.b, c.R, S)
             bump == RMul(c.amplitude, Chebyshev(c.modes, RDiv(RAbs(y[Len(y)]), r)))
         IN IF RLt(c.shock, r) THEN State(w[1], Scale(RNeg(RDiv(w[2], r)), z), w[3])
            ELSE Along(a, IF RLt(RAdd(c.radius, bump), r) THEN c.R ELSE c.L)
    [] name = "function" ->
         State(Poly(c.rho, y, t), Vec(a, Poly(c.u, y, t), IF Len(y) = 2 THEN Poly(c.v, y, t) ELSE "0"), Poly(c.p, y, t))

(* bathymetry *)
Dist(y, p) == Root(RAdd(Sq(RSub(y[1], p[1])), IF Len(y) = 1 THEN "0" ELSE Sq(RSub(y[2], p[2]))))
In(y, l, h) == RLe(l, y) /\ RLe(y, h)
Block(y, x) == RLe(RMul("2", RAbs(RSub(y[1], x))), "163/1000") /\ RLe(RMul("2", RAbs(y[2])), "8/100")
Dome(x, m) ==      \* half circle of diameter 31/100 around m, scaled to the height 73/1000
  RMul("73/1000", Root(RMax("0", RSub("1", Sq(RDiv(RSub(x, m), "31/200"))))))
Bathymetry(P, name, c, y) ==
  CASE name = "flow over bump" ->
         IF In(y[1], "8", "12") THEN RMul("1/320", RPow(RMul(RSub(y[1], "8"), RSub("12", y[1])), 3)) ELSE "0"
    [] name = "paraboloid" ->
         IF Len(y) = 1 THEN RMul(RDiv(c.h0, Sq(c.a)), Sq(RSub(y[1], RDiv(c.length, "2"))))
         ELSE RMul(c.h0, RSub(RDiv(RDot(y, y), Sq(c.a)), "1"))
    [] name = "sloping friction" -> RNeg(RMul(c.slope, y[1]))
    [] name = "smooth vortex" ->
         IF c.bath THEN RMul(RDiv(c.depth, "4"), Swirl([c EXCEPT !.mach = "0"], y, "0").f) ELSE "0"
    [] name = "three bumps dam break" ->
         LET cone(p, top, s) == RSub(top, RMul(s, Dist(y, p)))
         IN RMul(c.cone, RMax("0", IF Len(y) = 1 THEN cone(<<"95/2">>, "3", "3/10")
              ELSE RMaxSeq(<<cone(<<"30", "6">>, "1", "1/8"), cone(<<"30", "24">>, "1", "1/8"), cone(<<"95/2", "15">>, "3", "3/10")>>)))
    [] name = "hou test" ->
         LET q(p, k) == RAdd(RDiv(Sq(RSub(y[1], p[1])), k[1]), RDiv(Sq(RSub(y[2], p[2])), k[2]))
             base == RMinSeq(<<q(<<"-250", "0">>, <<"1600", "400">>), q(<<"0", "50">>, <<"225", "225">>),
                               RSub(q(<<"250", "0">>, <<"1225", "225">>), "10")>>)
             bumps == RMaxSeq(<<RSub("80", q(<<"-250", "0">>, <<"50", "50">>)),
                                IF RLe(q(<<"200", "-10">>, <<"1", "1">>), "1000") THEN "10" ELSE "0",
                                IF In(y[1], "340", "420") /\ In(y[2], "10", "90") THEN "20" ELSE "0">>)
         IN RMax(base, bumps)
    [] name = "transient experiments" ->
         LET base == IF RLt(y[1], "0") THEN "0" ELSE IF RLe(y[1], "326/100") THEN RMul("-92/100000", y[1])
                     ELSE RSub(RMul("-404/10000", RSub(y[1], "326/100")), RMul("92/100000", "326/100"))
             wall(s) == RLt(RAbs(RSub(y[1], "419/200")), "31/200") /\ RLt(RSub("12/100", s), RAbs(y[2]))
         IN RAdd(base, CASE c.case = "none" -> "0"
              [] c.case = "G1" -> IF Block(y, "4263/2000") THEN "7/100" ELSE "0"
              [] c.case = "G2" -> IF Block(y, "4863/2000") THEN "7/100" ELSE Dome(y[1], "2")
              [] c.case = "G3" -> IF Block(y, "4863/2000") THEN "7/100" ELSE IF wall(Dome(y[1], "419/200")) THEN "21/100" ELSE "0")
    [] OTHER -> "0"

Water(P, name, c, a, y, z, t) ==
  LET g == P.gravity
      bath == Bathymetry(P, name, c, y)
      flow(h, q) == [r |-> h, m |-> Vec(a, q, "0"), p |-> RMul(RMul("1/2", g), Sq(h))]
      full(h, u, v) == [r |-> h, m |-> Scale(h, Vec(a, u, v)), p |-> RMul(RMul("1/2", g), Sq(h))]
  IN
  CASE name = "uniform" -> full(c.W[1], c.W[2], "0")
    [] name = "contrast" -> IF RLt("0", y[1]) THEN full(c.R[1], c.R[2], "0") ELSE full(c.L[1], c.L[2], "0")
    [] name = "transient experiments" -> IF RLt("1e-8", y[1]) THEN flow(c.R[1], c.R[2]) ELSE flow(c.L[1], c.L[2])
    [] name = "ritter dam break" ->
         LET s == RAdd(t, c.t0)  cl == Root(RMul(g, c.depth))  xi == RDiv(y[1], s)
             cc == RDiv(RSub(RMul("2", cl), xi), "3")           \* both Riemann invariants of the fan
         IN IF RLe(xi, RNeg(cl)) THEN flow(c.depth, "0")
            ELSE IF RLe(RMul("2", cl), xi) THEN flow("0", "0") ELSE full(RDiv(Sq(cc), g), RAdd(xi, cc), "0")
    [] name = "hou test" -> flow(IF RLt(y[1], "-100") THEN RMax("0", RSub(c.depth, bath)) ELSE "0", "0")
    [] name = "paraboloid" ->
         IF Len(y) = 2 THEN
           LET w == Root(RDiv(RMul(RMul("2", g), c.h0), Sq(c.a)))
               C == Cos(RMul(w, t))  S == Sin(RMul(w, t))
               top == RMul(RDiv(RMul(RMul("2", c.eta), c.h0), Sq(c.a)), RAdd(RMul(y[1], C), RMul(y[2], S)))
               v == RMul(c.eta, w)
           IN full(RMax("0", RSub(top, bath)), RNeg(RMul(v, S)), RMul(v, C))
         ELSE
           LET s == Root(RDiv(RMul(RMul("2", g), c.h0), Sq(c.a)))
               C == Cos(RMul(s, t))  S == Sin(RMul(s, t))
               (* the plane surface oscillates: h + z = h0 - (u^2 terms) - (B s/g) cos(s t) (x - length/2) *)
               top == RSub(RSub(c.h0, RMul(RDiv(Sq(c.B), RMul("4", g)), RAdd("1", RSub(RMul("2", Sq(C)), "1")))),
                           RMul(RDiv(RMul(RMul(c.B, s), C), g), RSub(y[1], RDiv(c.length, "2"))))
           IN full(RMax("0", RSub(top, bath)), RMul(c.B, S), "0")
    [] name = "smooth vortex" ->
         LET s == Swirl(c, y, t)
         IN full(RSub(RSub(c.depth, RDiv(Sq(s.f), RMul("2", g))), bath), s.v[1], s.v[2])
    [] name = "soliton" ->
         LET D == c.depth  A == c.amplitude  cel == Root(RMul(g, RAdd(A, D)))
             k == Root(RDiv(RMul("3", A), RMul("4", RMul(Sq(D), RAdd(A, D)))))
             e == RExp(RMul(k, RSub(y[1], RMul(cel, t))))
             h == RAdd(D, RMul(A, RDiv("4", Sq(RAdd(e, RDiv("1", e))))))
         IN full(h, RMul(cel, RDiv(RSub(h, D), h)), "0")
    [] name = "three bumps dam break" ->
         IF c.rest \/ REq(t, "0") THEN flow(RMax("0", RSub(IF RLt(y[1], "16") THEN c.left ELSE c.right, bath)), "0")
         ELSE full(c.left, Root(RMul(g, c.left)), "0")
    [] name = "function" -> full(Poly(c.rho, y, t), Poly(c.u, y, t), IF Len(y) = 2 THEN Poly(c.v, y, t) ELSE "0")
    [] name = "flow over bump" ->     \* initially a level surface
         LET sub == c.case = "subsonic" IN flow(RSub(IF sub THEN "2" ELSE "0.28205279813802181", bath), IF sub THEN "4.42" ELSE "0.18")

Expected(P, name, c, a, y, z, t) ==
  CASE P.eq = "scalar" -> [r |-> IF name = "uniform" THEN c.W[1] ELSE Poly(c.rho, y, t), m |-> <<>>, p |-> "0"]
    [] P.eq = "sw" -> Water(P, name, c, a, y, z, t)
    [] OTHER -> Gas(P, name, c, a, y, z, t)

---------------------------------------------------------------------------
Finite(U) == \A k \in 1..Len(U) : U[k] \notin {"nan", "inf", "-inf"}
Positive(P, U) == CASE P.eq = "scalar" -> TRUE
                    [] P.eq = "sw" -> RLe("0", U[1]) /\ (REq(U[1], "0") => \A k \in 2..Len(U) : REq(U[k], "0"))
                    [] OTHER -> RLt("0", U[1]) /\ RLt("0", PressureD(P, DPoint(U))[1])
Press(P, U) == IF P.eq = "sw" THEN RMul(RMul("1/2", P.gravity), Sq(U[1])) ELSE PressureD(P, DPoint(U))[1]
(* the state U is the expected one *)
IsState(P, U, e, tol) ==
  LET M == BMom(P, U)  mag == RAdd(RSumAbs(U), RAdd(e.r, RSumAbs(e.m)))
  IN /\ Near(U[1], e.r, RAbs(e.r), tol)
     /\ P.eq # "scalar" => (Len(M) = Len(e.m) /\ \A k \in 1..Len(M) : Near(M[k], e.m[k], RAdd(RSumAbs(e.m), RAbs(e.r)), tol))
     /\ P.eq # "scalar" => Near(Press(P, U), e.p, RAdd(RAbs(e.p), RAbs(U[Len(U)])), tol)

(* Fluxes of a state in all directions; a dry state has none *)
Axis(n, d) == [k \in 1..n |-> IF k = d THEN "1" ELSE "0"]
F(P, U, n, d) == IF P.eq = "sw" /\ REq(U[1], "0") THEN [k \in 1..Len(U) |-> "0"] ELSE Value(FluxD(P, DPoint(U), Axis(n, d)))
(* derivative at the third of five equidistant values, times the spacing *)
Diff(s) == RDiv(RAdd(RSub(s[1], s[5]), RMul("8", RSub(s[4], s[2]))), "12")
Spread(s) == RSub(RMaxSeq(s), RMinSeq(s))
(* U_t + div f(U) = -g h grad z at the centre of the stencils T (in time) and X[d] (in space), spacing k in time and
   h in space; Z[d]: bathymetry *)
Solves(P, T, X, Z, k, h, tol) ==
  LET n == Len(X)  N == Len(T[1])
      f == TLCEval([d \in 1..n |-> [j \in 1..5 |-> F(P, X[d][j], n, d)]])
  IN \A c \in 1..N :
       LET time == [j \in 1..5 |-> RDiv(T[j][c], k)]
           space(d) == [j \in 1..5 |-> RDiv(f[d][j][c], h)]
           bed(d) == IF P.eq = "sw" /\ c = d + 1 THEN RDiv(RMul(RMul(P.gravity, T[3][1]), Diff(Z[d])), h) ELSE "0"
           res == RSum(<<Diff(time)>> \o [d \in 1..n |-> RAdd(Diff(space(d)), bed(d))])
           var == RSum(<<Spread(time)>> \o [d \in 1..n |-> RAdd(Spread(space(d)), RAbs(bed(d)))])
           mag == RSum(<<RSumAbs(time)>> \o [d \in 1..n |-> RSumAbs(space(d))])
       IN RLe(RAbs(res), RAdd(RMul(tol, var), RMul("1e-13", mag)))
(* Rankine-Hugoniot for a front with normal velocity s along the first axis *)
Jumps(P, L, R_, s, n, tol) ==
  LET a == F(P, L, n, 1)  b == F(P, R_, n, 1)
  IN \A c \in 1..Len(L) :
       Near(RSub(a[c], b[c]), RMul(s, RSub(L[c], R_[c])), RSum(<<RAbs(a[c]), RAbs(b[c]), RAbs(RMul(s, L[c])), RAbs(RMul(s, R_[c]))>>), tol)
=============================================================================
