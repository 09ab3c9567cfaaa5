----------------------------- MODULE Quantities -----------------------------
(***************************************************************************)
(* Quantities of interest (class Quantities): point values, time averages  *)
(* and spatial averages over manifolds, accumulated once per time step and *)
(* written to files at some of them.                                       *)
(*                                                                         *)
(* A manifold is [name, opts, pts]: opts a subset of {"inst","time","space"},*)
(* pts a sequence of [node, w] with the weight (mass) of each sample point. *)
(* A field v maps a node to the sequence of its primitive components.      *)
(***************************************************************************)
EXTENDS Rational, FiniteSets, TLC

VARIABLES
  win,    \* samples <<t, v>> since the statistics were last cleared
  ser,    \* samples that are not written to the time series yet
  c0,     \* cycle in the names of the time series files, -1 before the first writeout
  meshed, \* the mesh files of the current manifolds are written
  files   \* <<kind, manifold, cycle>> -> content
qvars == <<win, ser, c0, meshed, files>>

QInit == win = <<>> /\ ser = <<>> /\ c0 = -1 /\ meshed = FALSE /\ files = <<>>

Sq(p) == [k \in 1..Len(p) |-> RMul(p[k], p[k])]
(* Value at a point: the primitive state and its second moments *)
Sample(v, node) == [p |-> v[node], s |-> Sq(v[node])]

(* mass weighted means over the points of a manifold *)
Mass(m) == RSum([i \in 1..Len(m.pts) |-> m.pts[i].w])
Mean(m, v, second) ==
  LET n == Len(v[m.pts[1].node])
      val(i, k) == LET x == v[m.pts[i].node][k] IN IF second THEN RMul(x, x) ELSE x
      tot == Mass(m)
  IN [k \in 1..n |-> RDiv(RSum([i \in 1..Len(m.pts) |-> RMul(m.pts[i].w, val(i, k))]), tot)]

(* trapezoidal mean of a sequence of samples at one node *)
Span(w) == RSub(w[Len(w)][1], w[1][1])
TimeMean(w, node, second) ==
  LET n == Len(w[1][2][node])
      val(j, k) == LET x == w[j][2][node][k] IN IF second THEN RMul(x, x) ELSE x
  IN [k \in 1..n |->
        RDiv(RSum([j \in 1..Len(w) - 1 |->
               RMul(RMul("1/2", RSub(w[j + 1][1], w[j][1])), RAdd(val(j, k), val(j + 1, k)))]), Span(w))]

Points(m) == m.opts \cap {"inst", "time"} # {}
(* the statistics of a manifold are only kept if an average is requested *)
ManifoldFiles(m, i, t, v, cyc, w, s, sc, old) ==
  LET inst == IF "inst" \in m.opts
              THEN (<<"inst", i, cyc>> :> [t |-> t, rows |-> [k \in 1..Len(m.pts) |-> Sample(v, m.pts[k].node)]])
              ELSE <<>>
      tavg == IF "time" \in m.opts /\ Len(w) >= 2
              THEN (<<"tavg", i, cyc>> :>
                     [from |-> w[1][1], to |-> w[Len(w)][1],
                      rows |-> [k \in 1..Len(m.pts) |-> [p |-> TimeMean(w, m.pts[k].node, FALSE),
                                                         s |-> TimeMean(w, m.pts[k].node, TRUE)]]])
              ELSE <<>>
      key  == <<"series", i, sc>>
      before == IF sc # cyc /\ key \in DOMAIN old THEN old[key].rows ELSE <<>>
      series == IF "space" \in m.opts
                THEN (key :> [rows |-> before \o [j \in 1..Len(s) |->
                        [t |-> s[j][1], p |-> Mean(m, s[j][2], FALSE), s |-> Mean(m, s[j][2], TRUE)]]])
                ELSE <<>>
  IN inst @@ tavg @@ series
MeshFiles(m, i, cyc) ==
  IF Points(m) THEN (<<"points", i, cyc>> :> [pts |-> m.pts]) ELSE <<>>

RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN <<>> ELSE f[n] @@ Join(f, n - 1)

(* (re)start on a mesh: all statistics are dropped and new files are begun *)
Prepare == /\ win' = <<>> /\ ser' = <<>> /\ c0' = -1 /\ meshed' = FALSE /\ UNCHANGED files
Accumulate(t, v) == /\ win' = Append(win, <<t, v>>) /\ ser' = Append(ser, <<t, v>>)
                    /\ UNCHANGED <<c0, meshed, files>>
(* m: sequence of manifolds; clear: reset the temporal statistics *)
Write(ms, t, v, cyc, clear) ==
  LET sc == IF c0 = -1 THEN cyc ELSE c0
      new == Join([i \in 1..Len(ms) |-> ManifoldFiles(ms[i], i, t, v, cyc, win, ser, sc, files)], Len(ms))
      pts == IF meshed THEN <<>> ELSE Join([i \in 1..Len(ms) |-> MeshFiles(ms[i], i, cyc)], Len(ms))
  IN /\ files' = new @@ pts @@ files
     /\ c0' = sc /\ meshed' = TRUE /\ ser' = <<>>
     /\ win' = IF clear THEN <<>> ELSE win
=============================================================================
