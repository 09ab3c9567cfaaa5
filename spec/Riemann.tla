------------------------------- MODULE Riemann -------------------------------
(* The exact solution of a projected Riemann problem and what a bound of its maximal wave speed is.

   A Riemann problem is a pair of sides.  A gas side is [law |-> "gas", rho, u, P, gamma, omb] with the
   density, the velocity, P = p + p_infty, the exponent and 1 - b rho (the law of Noble, Abel and stiffened
   gases with a constant of its own on each side).  A water side is [law |-> "sw", h, u, g].

   The solution has two waves; the left one is a shock if the intermediate pressure (depth) z exceeds the one
   of the left side and a rarefaction otherwise, and z is the root of the increasing function
       phi(s) = f(left, s) + f(right, s) + u_right - u_left.
   The extremal speeds are u_left - a_left q(z) and u_right + a_right q(z), increasing with z.  The speed
   lambda is a bound iff both waves would need an intermediate state of at least z to be as fast as lambda
   (StateOf), which is the case iff phi is not negative there.  No root is computed.

   Irrational numbers occur as brackets of K bits: Root(up, ...) is an upper (up) or lower bound. *)
EXTENDS Rational, Sequences

K == 160
Sqrt(up, x) == IF up THEN RRootUp(x, 2, K) ELSE RRootDown(x, 2, K)
Power(up, x, e) == IF up THEN RPowerUp(x, e) ELSE RPowerDown(x, e)
One == "1"
RProd(s) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN RMul(s[1], s[2]) ELSE RMul(RMul(s[1], s[2]), IF Len(s) = 3 THEN s[3] ELSE RMul(s[3], s[4]))

(* square of the speed of sound *)
A2(s) == IF s.law = "gas" THEN RDiv(RMul(s.gamma, s.P), RMul(s.rho, s.omb)) ELSE RMul(s.g, s.h)
Level(s) == IF s.law = "gas" THEN s.P ELSE s.h

(* change of the velocity over the wave between the side and the intermediate state x: bound from above (up) or below *)
GasShock(s, x, up) ==
  RMul(RSub(x, s.P), Sqrt(up, RDiv(RMul("2", s.omb), RMul(s.rho, RAdd(RMul(RAdd(s.gamma, One), x), RMul(RSub(s.gamma, One), s.P))))))
GasFan(s, x, up) ==
  LET g1 == RSub(s.gamma, One)
      r  == RSub(Power(up, RDiv(x, s.P), RDiv(g1, RMul("2", s.gamma))), One)   \* not positive
  IN RDiv(RProd(<<"2", Sqrt(~up, A2(s)), s.omb, RMin(r, "0")>>), g1)
WaterShock(s, x, up) == RMul(RSub(x, s.h), Sqrt(up, RDiv(RMul(s.g, RAdd(x, s.h)), RProd(<<"2", x, s.h>>))))
WaterFan(s, x, up) == RMul("2", RSub(Sqrt(up, RMul(s.g, x)), Sqrt(~up, RMul(s.g, s.h))))
F(s, x, up) ==
  IF s.law = "gas" THEN IF RLe(s.P, x) THEN GasShock(s, x, up) ELSE GasFan(s, x, up)
  ELSE IF RLe(s.h, x) /\ RLt("0", s.h) THEN WaterShock(s, x, up) ELSE WaterFan(s, x, up)
Phi(l, r, x, up) == RAdd(RAdd(F(l, x, up), F(r, x, up)), RSub(r.u, l.u))

(* intermediate state with which the wave next to the side s moves with the relative speed w >= a; bound from above *)
StateOf(s, w) ==
  LET q == RDiv(RMul(w, w), A2(s))
  IN IF s.law = "gas" THEN RMul(s.P, RMax(One, RAdd(One, RDiv(RProd(<<"2", s.gamma, RSub(q, One)>>), RAdd(s.gamma, One)))))
     ELSE RMul(s.h, RMax(One, RDiv(RSub(RRootUp(RAdd(One, RMul("8", q)), 2, K), One), "2")))

(* lam is at least the speed of the wave next to the side s, towards that side; w: lam relative to the side *)
OneSide(l, r, s, w) ==
  /\ RLe("0", w)
  /\ RLe(A2(s), RMul(w, w))
  /\ RLe("0", Phi(l, r, StateOf(s, w), TRUE))
(* a dry side: the wave is a fan to vacuum, and moves with u + 2 a of the wet side *)
Dry(s) == s.law = "sw" /\ REq(s.h, "0")
Slack(l, r, lam, tol) == RMul(tol, RSum(<<lam, RAbs(l.u), RAbs(r.u)>>))
IsBound(l, r, lam, tol) ==
  LET m == RAdd(lam, Slack(l, r, lam, tol))
      wl == RAdd(m, l.u)  wr == RSub(m, r.u)
  IN /\ RLe("0", lam)
     /\ Dry(l) \/ IF Dry(r) THEN RLe(A2(l), RMul(wl, wl)) /\ RLe("0", wl) ELSE OneSide(l, r, l, wl)
     /\ Dry(r) \/ IF Dry(l) THEN RLe(A2(r), RMul(wr, wr)) /\ RLe("0", wr) ELSE OneSide(l, r, r, wr)
     /\ (Dry(r) /\ ~Dry(l)) =>    \* front velocity u_l + 2 a_l
          \E f \in {RSub(m, l.u)} : RLe("0", f) /\ RLe(RMul("4", A2(l)), RMul(f, f))
     /\ (Dry(l) /\ ~Dry(r)) =>
          \E f \in {RAdd(m, r.u)} : RLe("0", f) /\ RLe(RMul("4", A2(r)), RMul(f, f))
(* lam exceeds the maximal wave speed by at most the relative amount tol *)
IsSharp(l, r, lam, tol) ==
  LET m == RSub(lam, Slack(l, r, lam, tol))
      Slower(s, w) == \/ RLe(w, "0") \/ RLe(RMul(w, w), A2(s))
                      \/ RLe(Phi(l, r, StateOf(s, w), FALSE), "0")
  IN RLe(m, "0") \/ Slower(l, RAdd(m, l.u)) \/ Slower(r, RSub(m, r.u))

(* The failsafe pressure (Clayton, Guermond, Popov (5.11)) bounds the intermediate pressure from above only if
   that is at least the larger pressure P of the sides.  FailsafeCase: it is not, and the failsafe pressure is
   below the intermediate one; AtLeast: lam is not below the speed of the wave at the state x. *)
Larger(l, r) == RMax(l.P, r.P)
Failsafe(l, r, up) ==
  LET m == Larger(l, r)
      X(s) == Sqrt(up, RDiv(RMul("2", m), RMul(s.rho, RAdd(RMul(RAdd(s.gamma, One), m), RMul(RSub(s.gamma, One), s.P)))))
      xl == X(l)  xr == X(r)
      a == RAdd(xl, xr)  b == RSub(r.u, l.u)  c == RAdd(RMul(l.P, xl), RMul(r.P, xr))
      root == RDiv(RSub(Sqrt(up, RAdd(RMul(b, b), RProd(<<"4", a, c>>))), b), RMul("2", a))
  IN RMul(root, root)
FailsafeCase(l, r) ==
  /\ l.law = "gas"
  /\ RLe("0", Phi(l, r, Larger(l, r), TRUE))
  /\ RLe(Phi(l, r, Failsafe(l, r, FALSE), FALSE), "0")
AtLeast(l, r, lam, x, tol) ==
  LET m == RAdd(lam, Slack(l, r, lam, tol))
      Not(s, w) == /\ RLe("0", w)
                   /\ RLe(RMul(A2(s), RAdd(One, RMul(RDiv(RAdd(s.gamma, One), RMul("2", s.gamma)), RMax("0", RSub(RDiv(x, s.P), One))))), RMul(w, w))
  IN Not(l, RAdd(m, l.u)) /\ Not(r, RSub(m, r.u))

Mirror(s) == [s EXCEPT !.u = RNeg(@)]

(* The scalar conservation law with the projected flux sum_k c_k u^k, k <= 3, if it is convex (or concave)
   between the sides: the solution is a shock with the speed of Rankine and Hugoniot or a fan between the
   speeds of the sides. *)
PolyAt(c, u) == RSum([k \in 1..Len(c) |-> RMul(c[k], RPow(u, k))])
PolyDiff(c, u) == RSum([k \in 1..Len(c) |-> RProd(<<R(k), c[k], IF k = 1 THEN One ELSE RPow(u, k - 1)>>)])
PolyDiff2(c, u) == RAdd(IF Len(c) > 1 THEN RMul("2", c[2]) ELSE "0", IF Len(c) > 2 THEN RProd(<<"6", c[3], u>>) ELSE "0")
Convex(c, a, b) == RLe("0", RMul(PolyDiff2(c, a), PolyDiff2(c, b)))
RoeSpeed(c, a, b) == RAbs(RDiv(RSub(PolyAt(c, b), PolyAt(c, a)), RSub(b, a)))
ScalarSpeed(c, a, b) ==
  IF REq(a, b) THEN RAbs(PolyDiff(c, a))
  ELSE LET da == PolyDiff(c, a)  db == PolyDiff(c, b)
           \* characteristics spread (from the left side a to the right side b) or meet
       IN IF RLt(da, db) THEN RMax(RAbs(da), RAbs(db)) ELSE RoeSpeed(c, a, b)
(* The average of the solution over the fan of speed lam satisfies the entropy inequality of Kruzkov for k,
       |bar - k| <= (|a - k| + |b - k|) / 2 - (q(b) - q(a)) / (2 lam);    tol: admissible excess, times 2 lam *)
KruzkovFlux(c, u, k) == IF RLt(u, k) THEN RSub(PolyAt(c, k), PolyAt(c, u)) ELSE RSub(PolyAt(c, u), PolyAt(c, k))
EntropyHolds(c, a, b, k, lam, tol) ==
  LET bar2 == RSub(RMul(lam, RSub(RAdd(a, b), RMul("2", k))), RSub(PolyAt(c, b), PolyAt(c, a)))     \* 2 lam (bar - k)
      avg2 == RMul(lam, RAdd(RAbs(RSub(a, k)), RAbs(RSub(b, k))))
  IN RLe(RAbs(bar2), RAdd(RSub(avg2, RSub(KruzkovFlux(c, b, k), KruzkovFlux(c, a, k))), tol))
=============================================================================
