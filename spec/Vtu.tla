-------------------------------- MODULE Vtu --------------------------------
(***************************************************************************)
(* Visualization output: which cells are shown, which fields, and with     *)
(* which values; the normalized derived fields.                            *)
(*                                                                         *)
(* nodes[i] = [U, P, I, a: state, precomputed values, initial precomputed  *)
(*   values, indicator; m: lumped mass; row: sequence of [j, c]; con:      *)
(*   sequence of [j, w], the interpolation at a constrained node]          *)
(* cells[k] = [v: sequence of nodes, lev: per manifold the values of its   *)
(*   level set function at the vertices]                                   *)
(***************************************************************************)
EXTENDS Rational, Sequences, FiniteSets

(* a cell intersects a manifold if the function is not of one strict sign at the vertices *)
Cut(values) == (\E k \in 1..Len(values) : RLe("0", values[k])) /\ (\E k \in 1..Len(values) : RLe(values[k], "0"))
Selected(cells, levels) ==
  IF levels THEN {k \in 1..Len(cells) : \E l \in 1..Len(cells[k].lev) : Cut(cells[k].lev[l])} ELSE 1..Len(cells)

---------------------------------------------------------------------------
(* fields *)
Half(a) == RDiv(a, "2")
(* primitive states: the velocity instead of the momentum, the pressure instead of the total energy *)
Velocity(U, d) == RDiv(U[1 + d], U[1])
Kinetic(U, dim) == Half(RDiv(RSum([d \in 1..dim |-> RMul(U[1 + d], U[1 + d])]), U[1]))
Primitive(eq, dim, gamma, U, c) ==
  IF c = 1 THEN U[1] ELSE IF c <= dim + 1 THEN Velocity(U, c - 1)
  ELSE RMul(RSub(gamma, "1"), RSub(U[c], Kinetic(U, dim)))
(* kind: "U" conserved, "prim", "P", "I", "a" *)
Nodal(f, eq, dim, gamma, n) ==
  CASE f.kind = "U" -> n.U[f.c]
    [] f.kind = "prim" -> Primitive(eq, dim, gamma, n.U, f.c)
    [] f.kind = "P" -> n.P[f.c]
    [] f.kind = "I" -> n.I[f.c]
    [] f.kind = "a" -> n.a
(* what is shown at a node: hanging nodes show the interpolated value *)
Shown(val(_), nodes, i) ==
  IF nodes[i].con = <<>> THEN val(i) ELSE RSum([k \in 1..Len(nodes[i].con) |-> RMul(nodes[i].con[k].w, val(nodes[i].con[k].j))])

---------------------------------------------------------------------------
(* derived fields: schlieren |grad q|, vorticity curl q (with a sign in two dimensions), by the discrete gradient *)
Digits == 30
Norm(v) == RRootUp(RDot(v, v), 2, Digits)
Gradient(val(_), dim, n) == [d \in 1..dim |-> RDiv(RSum([k \in 1..Len(n.row) |-> RMul(n.row[k].c[d], val(n.row[k].j))]), n.m)]
(* entry (d, e) of the discrete gradient of a vector field *)
Jac(val(_, _), d, e, n) == RDiv(RSum([k \in 1..Len(n.row) |-> RMul(n.row[k].c[d], val(n.row[k].j, e))]), n.m)
Curl2(val(_, _), n) == RSub(Jac(val, 1, 2, n), Jac(val, 2, 1, n))
Curl3(val(_, _), n) == << RSub(Jac(val, 2, 3, n), Jac(val, 3, 2, n)), RSub(Jac(val, 3, 1, n), Jac(val, 1, 3, n)),
                          RSub(Jac(val, 1, 2, n), Jac(val, 2, 1, n)) >>

(* normalization with the bounds [max, min] of the absolute value over all nodes that carry a degree of freedom *)
Bounds(raw) == [max |-> RMaxSeq([k \in 1..Len(raw) |-> RAbs(raw[k])]), min |-> RMinSeq([k \in 1..Len(raw) |-> RAbs(raw[k])])]
Floor == "1/10000000000"
Eps == "1/4503599627370496"
Ratio(q, b) == RDiv(RMax("0", RSub(RSub(RAbs(q), b.min), Floor)), RMax(RSub(b.max, b.min), Eps))
Sign(q) == IF RLt(q, "0") THEN "-1" ELSE "1"
Decay(x) == IF RLe("60", x) THEN "0" ELSE RMin("1", RExpUp(RNeg(RDown(x, 25))))     \* less than 1e-26
Normalized(q, b, beta) == RMul(Sign(q), RSub("1", Decay(RMul(beta, Ratio(q, b)))))
=============================================================================
