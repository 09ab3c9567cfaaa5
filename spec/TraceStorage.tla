---------------------------- MODULE TraceStorage ----------------------------
(* Histories of a real matrix and a real vector on several processes.  A trace is [lay, n, w, ops]; op kinds see below;
   dumps carry, per process, everything that can be read through any of the access functions. *)
EXTENDS Storage, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, mem, wire, vec
tvars == <<tid, pos, mem, wire, vec>>
T == Traces[tid]
L == T.lay
TraceInit ==
  /\ tid \in 1..Len(Traces) /\ pos = 1 /\ wire = <<>>
  /\ LayoutOk(Traces[tid].lay) /\ mem = NewMatrix(Traces[tid].lay) /\ vec = NewVector(Traces[tid].lay, Traces[tid].n)

ReadIn(s, e) == LET k == ((e[1] - 1) * L.hi[L.np] + e[2] - 1) * T.n IN [d \in 1..T.n |-> ((k + d - 1) * s) % 997]
Lane(v, k) == SubSeq(v, k * T.n + 1, (k + 1) * T.n)
Added(a, b) == [d \in 1..T.n |-> a[d] + b[d]]

Is(x, e, p) == mem[p][e] = <<>> \/ x = mem[p][e]
RowOk(p, k, r) ==
  LET own == r.g \in Owned(L, p)
      fast == own /\ r.g - L.lo[p] < L.nint[p]
  IN /\ r.g = IF k <= L.hi[p] - L.lo[p] + 1 THEN L.lo[p] + k - 1 ELSE L.ghosts[p][k - (L.hi[p] - L.lo[p] + 1)]
     /\ r.stride = IF fast THEN T.w ELSE 1
     /\ r.cols[1] = r.g /\ Range(r.cols) = RowCols(L, p, r.g) /\ Len(r.cols) = Cardinality(RowCols(L, p, r.g))
     /\ Len(r.v) = Len(r.cols) /\ Len(r.t) = Len(r.cols)
     /\ Len(r.v2) = (IF fast /\ T.w > 1 THEN Len(r.cols) ELSE 0)
     /\ Len(r.t2) = (IF fast /\ T.w > 1 /\ T.n = 1 THEN Len(r.cols) ELSE 0)
     /\ \A l \in 1..Len(r.cols) :
          /\ Is(r.v[l], <<r.g, r.cols[l]>>, p)
          /\ Is(r.t[l], <<r.cols[l], r.g>>, p)
          /\ Len(r.v2) > 0 => Is(r.v2[l], <<r.g, r.cols[l]>>, p)
          /\ Len(r.t2) > 0 => Is(r.t2[l], <<r.cols[l], r.g>>, p)
VecOk(p, k, r) ==
  /\ r.g = IF k <= L.hi[p] - L.lo[p] + 1 THEN L.lo[p] + k - 1 ELSE L.ghosts[p][k - (L.hi[p] - L.lo[p] + 1)]
  /\ r.v = vec[p][r.g]
  /\ r.v2 # <<>> => r.v2 = r.v
  /\ T.w > 1 => r.v3 = r.v
  (* a component taken out has current values on the foreign rows as well *)
  /\ r.x = vec[Owner(L, r.g)][r.g]
NRows(p) == L.hi[p] - L.lo[p] + 1 + Len(L.ghosts[p])

Op(o) ==
  /\ UNCHANGED tid /\ pos' = pos + 1
  /\ CASE o.e = "w" -> mem' = Put(mem, o.p, {<<o.i, o.j>>}, LAMBDA e : o.v) /\ UNCHANGED <<wire, vec>>
       [] o.e = "W" -> (* column number k of w rows; which column this is has been seen in a dump *)
            /\ mem' = Put(mem, o.p, {<<o.i + l, o.cols[l + 1]>> : l \in 0..(T.w - 1)}, LAMBDA e : Lane(o.v, e[1] - o.i))
            /\ UNCHANGED <<wire, vec>>
       [] o.e = "read" ->
            /\ mem' = [p \in 1..L.np |-> [e \in DOMAIN mem[p] |-> IF e \in OwnEntries(L, p) THEN ReadIn(o.s, e) ELSE mem[p][e]]]
            /\ UNCHANGED <<wire, vec>>
       [] o.e = "start" -> wire' = Capture(L, mem) /\ mem' = Void(L, mem) /\ UNCHANGED vec
       [] o.e = "finish" -> mem' = Deliver(L, mem, wire) /\ UNCHANGED <<wire, vec>>
       [] o.e = "exchange" -> mem' = Deliver(L, mem, Capture(L, mem)) /\ UNCHANGED <<wire, vec>>
       [] o.e = "vw" -> vec' = VPut(vec, o.p, {o.i}, LAMBDA i : o.v) /\ UNCHANGED <<mem, wire>>
       [] o.e = "va" -> vec' = VPut(vec, o.p, {o.i}, LAMBDA i : Added(vec[o.p][i], o.v)) /\ UNCHANGED <<mem, wire>>
       [] o.e = "vW" -> vec' = VPut(vec, o.p, o.i..(o.i + T.w - 1), LAMBDA i : Lane(o.v, i - o.i)) /\ UNCHANGED <<mem, wire>>
       [] o.e = "vA" -> vec' = VPut(vec, o.p, o.i..(o.i + T.w - 1), LAMBDA i : Added(vec[o.p][i], Lane(o.v, i - o.i))) /\ UNCHANGED <<mem, wire>>
       [] o.e = "insert" ->
            /\ vec' = [p \in 1..L.np |-> [i \in DOMAIN vec[p] |->
                        IF i \in Owned(L, p) THEN [vec[p][i] EXCEPT ![o.c] = ((i - 1) * o.s + 7) % 997] ELSE vec[p][i]]]
            /\ UNCHANGED <<mem, wire>>
       [] o.e = "vu" -> vec' = VUpdate(L, vec) /\ UNCHANGED <<mem, wire>>
       [] o.e = "vz" -> vec' = VZero(L, vec) /\ UNCHANGED <<mem, wire>>
       [] o.e = "d" -> (\A p \in 1..L.np : Len(o.see[p]) = NRows(p) /\ \A k \in 1..NRows(p) : RowOk(p, k, o.see[p][k])) = TRUE
                       /\ UNCHANGED <<mem, wire, vec>>
       [] o.e = "vd" -> (\A p \in 1..L.np : Len(o.see[p]) = NRows(p) /\ \A k \in 1..NRows(p) : VecOk(p, k, o.see[p][k])) = TRUE
                        /\ UNCHANGED <<mem, wire, vec>>
TraceNext ==
  \/ pos <= Len(T.ops) /\ Op(T.ops[pos])
  \/ pos = Len(T.ops) + 1 /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
