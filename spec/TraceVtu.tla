------------------------------ MODULE TraceVtu ------------------------------
(* Written files.  A trace is [eq, dim, gamma, beta, recompute, tol, fields, derived, ev]; fields: sequence of [name, kind, c];
   derived: sequence of [name, op, kind, c]; ev: sequence of [reset, nodes, q, cells, out]; q[k][i]: derived field k at node i;
   out: sequence of [levels, names, patches], a patch is [cell, at: nodes, f: values per name and point]. *)
EXTENDS Vtu, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, bounds
tvars == <<tid, pos, bounds>>
T == Traces[tid]
TraceInit == tid \in 1..Len(Traces) /\ pos = 1 /\ bounds = <<>>
Close(a, b) == RLe(RAbs(RSub(a, b)), RMul(T.tol, RAdd("1", RAbs(b))))

NodalTable(ev) == [f \in 1..Len(T.fields) |-> [i \in 1..Len(ev.nodes) |-> Nodal(T.fields[f], T.eq, T.dim, T.gamma, ev.nodes[i])]]
Free(ev) == SelectSeq([i \in 1..Len(ev.nodes) |-> i], LAMBDA i : ev.nodes[i].con = <<>>)
Raw(ev, d, i) ==
  LET n == ev.nodes[i]
      val(j) == Nodal([kind |-> d.kind, c |-> d.c], T.eq, T.dim, T.gamma, ev.nodes[j])
      vval(j, e) == Nodal([kind |-> d.kind, c |-> d.c + e - 1], T.eq, T.dim, T.gamma, ev.nodes[j])
  IN IF d.op = "schlieren" THEN Norm(Gradient(val, T.dim, n))
     ELSE IF T.dim = 2 THEN Curl2(vval, n) ELSE Norm(Curl3(vval, n))
RawTable(ev) == [k \in 1..Len(T.derived) |-> [i \in 1..Len(ev.nodes) |-> IF ev.nodes[i].con = <<>> THEN Raw(ev, T.derived[k], i) ELSE "0"]]
BoundsOf(ev, raw) == [k \in 1..Len(T.derived) |-> LET fr == Free(ev) IN Bounds([l \in 1..Len(fr) |-> raw[k][fr[l]]])]
NormTable(raw, b) == [k \in 1..Len(T.derived) |-> [i \in 1..Len(raw[k]) |-> Normalized(raw[k][i], b[k], T.beta)]]

Names == [k \in 1..Len(T.fields) |-> T.fields[k].name] \o [k \in 1..Len(T.derived) |-> T.derived[k].name]
ShownTable(ev, tab) == [k \in 1..Len(tab) |-> [i \in 1..Len(ev.nodes) |-> LET val(j) == tab[k][j] IN Shown(val, ev.nodes, i)]]
(* every selected cell once, with its vertices *)
CellsOk(ev, o) ==
  /\ \A k \in 1..Len(o.patches) : o.patches[k].cell \in 1..Len(ev.cells)
  /\ {o.patches[k].cell : k \in 1..Len(o.patches)} = Selected(ev.cells, o.levels)
  /\ Len(o.patches) = Cardinality(Selected(ev.cells, o.levels))
  /\ \A k \in 1..Len(o.patches) : \A l \in 1..Len(o.patches[k].at) : o.patches[k].at[l] = ev.cells[o.patches[k].cell].v[l]
ValuesOk(ev, o, tab) ==
  /\ o.names = Names
  /\ \A k \in 1..Len(o.patches) : LET p == o.patches[k] IN
       \A f \in 1..Len(Names) : \A l \in 1..Len(p.at) : Close(p.f[f][l], tab[f][p.at[l]])
DerivedOk(ev, tab) ==
  \A k \in 1..Len(T.derived) : \A i \in 1..Len(ev.nodes) : Close(ev.q[k][i], tab[Len(T.fields) + k][i])
Ev(ev) ==
  \E raw \in {TLCEval(RawTable(ev))} :
  \E b \in {TLCEval(IF T.recompute \/ ev.reset \/ bounds = <<>> THEN BoundsOf(ev, raw) ELSE bounds)} :
  \E tab \in {TLCEval(ShownTable(ev, NodalTable(ev) \o NormTable(raw, b)))} :
    /\ bounds' = b
    /\ DerivedOk(ev, tab) = TRUE
    /\ (\A k \in 1..Len(ev.out) : CellsOk(ev, ev.out[k]) /\ ValuesOk(ev, ev.out[k], tab)) = TRUE
TraceNext ==
  \/ pos <= Len(T.ev) /\ Ev(T.ev[pos]) /\ pos' = pos + 1 /\ UNCHANGED tid
  \/ pos = Len(T.ev) + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
