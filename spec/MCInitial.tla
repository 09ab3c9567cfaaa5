----------------------------- MODULE MCInitial -----------------------------
(* The specified configurations are what they claim to be: shocks satisfy the jump conditions exactly and compress,
   fans and vortices solve the conservation law, frames are isometries. *)
EXTENDS Initial
CONSTANTS SHOCK, WATER, COVOLUME
VARIABLE st
(* gamma p/(rho (1 - b rho)) is a square: exact speeds *)
Gases == [g : {"7/5", "5/3", "2"}, b : {"0", "1/4"}, mach : {"3/2", "2", "5"}, u : {"0", "1/3", "-1/2"}, w : {"shock"}]
Waters == [g : {"1", "4"}, t : {"0", "1", "5/2"}, x : {"-3/2", "-1/2", "1/3", "2"}, w : {"ritter", "bowl", "trough"}]
Frames == [d : {<<"3", "4">>, <<"-1", "0">>, <<"5", "-12">>, <<"0", "2">>}, x : {<<"1", "2">>, <<"-1/3", "7">>}, w : {"frame"}]
Init == st \in (IF SHOCK THEN Gases ELSE {}) \cup (IF WATER THEN Waters ELSE {}) \cup Frames
Next == UNCHANGED st
PG(s) == [eq |-> "aeos", gamma |-> s.g, gravity |-> "1", tol |-> "1e-12",
          L |-> [name |-> "noble abel stiffened gas", gamma |-> s.g, b |-> s.b, q |-> "0", pinf |-> "0"]]
PW(s) == [eq |-> "sw", gamma |-> "2", gravity |-> s.g, L |-> [name |-> ""]]
(* rho = 1: p such that the speed of sound is 1 *)
Ahead(s) == <<"1", s.u, RDiv(RSub("1", s.b), s.g)>>
(* the post-shock state; with COVOLUME = FALSE the density ratio ignores the covolume, as the code once did *)
Behind(s) == LET w == Ahead(s) IN IF COVOLUME THEN BehindShock(s.g, s.b, w, s.mach) ELSE
             LET v == BehindShock(s.g, "0", <<w[1], w[2], RDiv("1", s.g)>>, s.mach) IN <<v[1], v[2], RMul(v[3], RMul(s.g, w[3]))>>
Conserved(s, w) ==
  LET e == RDiv(RMul(w[3], RSub("1", RMul(s.b, w[1]))), RMul(w[1], RSub(s.g, "1")))
  IN <<w[1], RMul(w[1], w[2]), RMul(w[1], RAdd(e, RMul("1/2", Sq(w[2]))))>>
ShockOk == st.w = "shock" =>
  LET A == Conserved(st, Ahead(st))  B == Conserved(st, Behind(st))
  IN /\ Jumps(PG(st), B, A, st.mach, 1, "1e-60") /\ RLt("0", RSub("1", RMul(st.b, B[1])))
     /\ (RLt("1", RSub(st.mach, st.u)) => RLt(A[1], B[1]))
K == "1/64"
(* a profile solves the equations *)
At(s, name, c, y, t) ==
  LET e == Water(PW(s), name, c, [k \in 1..Len(y) |-> IF k = 1 THEN "1" ELSE "0"], y, y, t) IN <<e.r>> \o e.m
Config(s) ==
  CASE s.w = "ritter" -> [n |-> "ritter dam break", c |-> [t0 |-> "1", depth |-> s.g], y |-> <<RMul(s.x, s.g)>>]
    [] s.w = "bowl" -> [n |-> "paraboloid", c |-> [a |-> "4", h0 |-> "2", eta |-> "1/2"], y |-> <<s.x, "1/2">>]
    [] s.w = "trough" -> [n |-> "paraboloid", c |-> [a |-> "4", h0 |-> "2", B |-> "1/2", length |-> "1"], y |-> <<s.x>>]
Steps == <<RNeg(RMul("2", K)), RNeg(K), "0", K, RMul("2", K)>>
Move(y, d, a) == [k \in 1..Len(y) |-> IF k = d THEN RAdd(y[k], a) ELSE y[k]]
Kinks(s) == s.w = "ritter" /\ \E v \in {"-1", "2"} : LET f == RMul(v, RMul(s.g, RAdd(s.t, "1"))) IN RLe(RAbs(RSub(f, RMul(s.x, s.g))), RMul("8", RMul(s.g, K)))
WaterOk == (st.w \in {"ritter", "bowl", "trough"} /\ ~Kinks(st)) =>
  LET q == Config(st)  n == Len(q.y)
      T == [j \in 1..5 |-> At(st, q.n, q.c, q.y, RAdd(st.t, Steps[j]))]
      X == [d \in 1..n |-> [j \in 1..5 |-> At(st, q.n, q.c, Move(q.y, d, Steps[j]), st.t)]]
      Z == [d \in 1..n |-> [j \in 1..5 |-> Bathymetry(PW(st), q.n, q.c, Move(q.y, d, Steps[j]))]]
  IN Solves(PW(st), T, X, Z, K, K, "1e-5")
FrameOk == st.w = "frame" =>
  LET y == ToFrame(<<"0", "0">>, st.d, st.x)  b == FromFrame(st.d, y)  e == ToFrame(<<"0", "0">>, st.d, FrameDir(st.d))
  IN /\ \A k \in 1..2 : Near(b[k], st.x[k], "10", "1e-25")
     /\ Near(RDot(y, y), RDot(st.x, st.x), "100", "1e-25") /\ Near(e[1], "1", "1", "1e-25") /\ Near(e[2], "0", "1", "1e-25")
Spec == Init /\ [][Next]_st
=============================================================================
