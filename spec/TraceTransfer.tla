---------------------------- MODULE TraceTransfer ----------------------------
(* Recorded outputs of the real program around mesh adaptations.
   events: [cells |-> <<x, y, s>>, v |-> corner values per cell, t |-> time]; tps: the
   configured adaptation time points, all times given by their rank; strategy: the configured
   adaptation strategy ("global" or "random").
   Stale = FALSE is the specification; Stale = TRUE admits that values of constrained degrees
   of freedom of the old mesh are not those of the represented function (known finding). *)
EXTENDS Transfer, Json, IOUtils
CONSTANT Stale
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, mesh, f, pending, now
tvars == <<tid, pos, mesh, f, pending, now>>
Tr == Traces[tid]
ASet(s) == {s[i] : i \in 1..Len(s)}
MeshOf(e) == ASet(e.cells)
FieldOf(e) == LET idx == [c \in MeshOf(e) |-> CHOOSE i \in 1..Len(e.cells) : e.cells[i] = c]
              IN [c \in MeshOf(e) |-> e.v[idx[c]]]
Ev == Tr.events[pos]
More == pos <= Len(Tr.events)
TraceInit == \E n \in 1..Len(Traces) :
  /\ tid = n /\ pos = 2
  /\ \E e \in {Traces[n].events[1]} : mesh = MeshOf(e) /\ f = FieldOf(e) /\ now = e.t
  \* time points in the past are dropped at the start of the program; those reached at the start are due
  /\ pending = {t \in ASet(Traces[n].tps) : t >= Traces[n].events[1].t}
  /\ Cardinality(MeshOf(Traces[n].events[1])) = Len(Traces[n].events[1].cells)

(* What the program owes between two outputs: the output of a time step precedes the adaptation
   at the end of that step *)
Due == {t \in pending : t <= now}
Want == IF Due = {} THEN "none" ELSE Tr.strategy

(* points with constrained degrees of freedom *)
OnPeriodic(p) == \/ Tr.perx = 1 /\ p[1] \in {Tr.lo[1], Tr.hi[1]}
                 \/ Tr.pery = 1 /\ p[2] \in {Tr.lo[2], Tr.hi[2]}
Corners(m) == UNION {{Corner(c, k) : k \in 0..3} : c \in m}
Hanging(m) == Corners(m) \cap Mids(m)
(* hanging nodes induced by finer cells on the other side of a periodic boundary *)
Width(d) == Tr.hi[d] - Tr.lo[d]
Images(p) == {p, IF Tr.perx = 0 THEN p ELSE IF p[1] = Tr.lo[1] THEN <<Tr.hi[1], p[2]>> ELSE IF p[1] = Tr.hi[1] THEN <<Tr.lo[1], p[2]>> ELSE p,
              IF Tr.pery = 0 THEN p ELSE IF p[2] = Tr.lo[2] THEN <<p[1], Tr.hi[2]>> ELSE IF p[2] = Tr.hi[2] THEN <<p[1], Tr.lo[2]>> ELSE p}
PerHanging(m) == {p \in Corners(m) : OnPeriodic(p) /\ Images(p) \cap Mids(m) # {}}
(* a point is hanging on the new mesh, or constrained to its periodic image: the new value
   there is determined by the other values, see Conforming and Periodic *)
Free(new) == (IF Tr.dg = 1 THEN {} ELSE Mids(new) \cup PerHanging(new))
             \* boundary data on the side lo[1]
             \cup (IF Tr.dirichlet = 1 THEN {p \in Corners(new) : p[1] = Tr.lo[1]} ELSE {})
(* corners of the new mesh whose value is computed from a value stored for a constrained point *)
Bad(m) == IF Tr.dg = 1 THEN {} ELSE {p \in Corners(m) : OnPeriodic(p)} \cup Hanging(m)
Source(c, k) ==
  IF c \in mesh THEN {Corner(c, k)}
  ELSE IF ParentOf(c) \in mesh
  THEN LET p == ParentOf(c) x == Corner(c, k)
           on(i) == {p[i] + j * p[3] : j \in {0, 1}}
           side(i) == IF x[i] \in on(i) THEN {x[i]} ELSE on(i)
       IN side(1) \X side(2)
  ELSE {Corner(c, k)}
Tainted(new) ==
  IF ~Stale THEN {}
  ELSE \* the values of all images of a point are one value
       LET bad == Bad(mesh)
           t == {Corner(c, k) : c \in new, k \in 0..3} 
           hit == {x \in t : \E c \in new : \E k \in 0..3 : Corner(c, k) = x /\ Source(c, k) \cap bad # {}}
       IN {x \in t : Images(x) \cap hit # {}}

(* A conforming function is periodic: equal values in periodic images (the points of both
   sides are compared where both are corners) *)
Periodic(g, new) ==
  LET onb == {<<c, k>> \in new \X (0..3) : OnPeriodic(Corner(c, k))}
  IN \A a \in onb : \A b \in onb :
       Corner(b[1], b[2]) \in Images(Corner(a[1], a[2])) =>
         \A m \in 1..Tr.ncomp : Abs(g[a[1]][a[2] + 1][m] - g[b[1]][b[2] + 1][m]) <= Tr.tol
Uniform(m) == \A c, d \in m : c[3] = d[3]
Count(num, den, n) == (num * n) \div den
(* at most one level of difference between neighbours, also across periodic boundaries *)
Marked(new) ==
  LET r == Cardinality(RefinedCells(mesh, new)) c == Cardinality(CoarsenedCells(mesh, new))
      n == Cardinality(mesh)
  IN CASE Want = "global" -> r = n
       [] Want = "random" ->
            /\ (Tr.ref = 0 => r = 0) /\ (Tr.crs = 0 => c = 0)
            /\ (Tr.np = 1 /\ Uniform(mesh)) => r = Count(Tr.ref, 100, n) /\ c <= Count(Tr.crs, 100, n)
            /\ Tr.np = 1 => r >= Count(Tr.ref, 100, n)
            /\ (Tr.crs = 100 /\ Uniform(mesh) /\ Tr.coarse = 1) => c = n
            \* an adaptation of the random strategy with marked cells changes the mesh
            /\ (Tr.np = 1 /\ Count(Tr.ref, 100, n) > 0) => new # mesh
       [] Want = "none" -> new = mesh
       [] OTHER -> FALSE
TraceNext ==
  \/ /\ More
     /\ \E new \in {MeshOf(Ev)} : \E g \in {FieldOf(Ev)} :
          /\ Cardinality(new) = Len(Ev.cells) /\ Ev.t > now
          /\ ValidStep(mesh, new) /\ Marked(new)
          /\ Transferred(f, mesh, g, new, Free(new) \cup Tainted(new), Tr.ncomp, Tr.tol) = TRUE
          /\ (Tr.dg = 1 \/ (Conforming(g, new, Tr.ncomp, Tr.tol) /\ Periodic(g, new))) = TRUE
          /\ mesh' = new /\ f' = g /\ now' = Ev.t /\ pending' = pending \ Due
          /\ pos' = pos + 1 /\ UNCHANGED tid
  \/ ~More /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
