--------------------------- MODULE TraceQuantities ---------------------------
(* The files of the real class after a history of prepare / accumulate / write_out calls.
   X: positions, m: masses of the (unconstrained) degrees of freedom; bmap: boundary entries
   [node, x, n, nm, bm]; mans: manifolds [name, kind, opts, forms], the product of the linear forms
   a.x - c is the level set; ev: calls; files: parsed files. *)
EXTENDS Quantities, Physics, SequencesExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, ms, cand
tvars == <<win, ser, c0, meshed, files, tid, pos, ms, cand>>
Tr == Traces[tid]

LevelSet(m, x) == LET RECURSIVE P(_)
                      P(i) == IF i = 0 THEN "1" ELSE RMul(RSub(RDot(m.forms[i].a, x), m.forms[i].c), P(i - 1))
                  IN P(Len(m.forms))
On(m, x) == RLe(RAbs(LevelSet(m, x)), "1e-12")
SetOf(s) == {s[i] : i \in 1..Len(s)}
(* which degrees of freedom a manifold samples, with which weight *)
PointsOf(T, m) ==
  IF m.kind = "interior"
  THEN LET S == SelectSeq([n \in 1..T.n |-> n], LAMBDA n : On(m, T.X[n]))
       IN [i \in 1..Len(S) |-> [node |-> S[i], x |-> T.X[S[i]], w |-> T.m[S[i]], row |-> <<T.m[S[i]]>>]]
  ELSE LET S == SelectSeq(T.bmap, LAMBDA b : On(m, b.x))
       IN [i \in 1..Len(S) |-> [node |-> S[i].node, x |-> S[i].x, w |-> S[i].bm,
                                row |-> S[i].n \o <<S[i].nm, S[i].bm>>]]
Manifold(T, m) == TLCEval([name |-> m.name, opts |-> SetOf(m.opts), pts |-> PointsOf(T, m)])

(* primitive state *)
Prim(T, U) ==
  LET inv == Rnd(RDiv("1", U[1]))
      dim == T.dim
      rhoe == Rnd(RSub(U[Len(U)], RMul(RMul("1/2", inv), RDot(SubSeq(U, 2, dim + 1), SubSeq(U, 2, dim + 1)))))
      vel == [d \in 1..dim |-> Rnd(RMul(U[1 + d], inv))]
  IN CASE T.prim = "scalar" -> U
       [] T.prim = "h" -> <<U[1]>> \o vel
       [] T.prim = "p" -> <<U[1]>> \o vel \o <<RMul(RSub(T.gamma, "1"), rhoe)>>
       [] T.prim = "e" -> <<U[1]>> \o vel \o <<Rnd(RMul(rhoe, inv))>>
Field(T, U) == TLCEval([n \in 1..T.n |-> Prim(T, U[n])])

(* comparison with the printed numbers *)
NearT(T, a, b, sc) == RLe(RAbs(RSub(a, b)), RMul(T.tol, RAdd(RAbs(a), sc)))
NearSeqT(T, a, r, sc) == Len(a) = Len(r) /\ \A k \in 1..Len(a) : NearT(T, a[k], r[k], sc[k])
Near(a, b, sc) == NearT(Tr, a, b, sc)
NearSeq(a, r, sc) == NearSeqT(Tr, a, r, sc)
Ones(n) == [k \in 1..n |-> "1e-2"]
PointOk(T, p, r) == NearSeqT(T, p.x, r.x, Ones(Len(p.x))) /\ NearSeqT(T, p.row, r.w, Ones(Len(p.row)))

(* cand: per file of points and row the points of the manifold that it may describe *)
Candidates(T, M) ==
  TLCEval([f \in {i \in 1..Len(T.files) : T.files[i].kind = "points"} |->
    [r \in 1..Len(T.files[f].rows) |->
       {j \in 1..Len(M[T.files[f].man].pts) : PointOk(T, M[T.files[f].man].pts[j], T.files[f].rows[r])}]])
TraceInit == \E i \in 1..Len(Traces) :
  /\ tid = i /\ pos = 1 /\ QInit
  /\ ms = [k \in 1..Len(Traces[i].mans) |-> Manifold(Traces[i], Traces[i].mans[k])]
  /\ cand = Candidates(Traces[i], ms)

Ev == Tr.ev[pos]
Scales == [k \in 1..Len(Tr.scale) |-> Tr.scale[k]]
Scales2 == [k \in 1..Len(Tr.scale) |-> RMul(Tr.scale[k], Tr.scale[k])]
RowOk(want, got) == NearSeq(want.p, got.p, Scales) /\ NearSeq(want.s, got.s, Scales2)

Index(key) == CHOOSE i \in 1..Len(Tr.files) :
  Tr.files[i].kind = key[1] /\ Tr.files[i].man = key[2] /\ Tr.files[i].cycle = key[3]
File(key) == Tr.files[Index(key)]
Keys == {<<Tr.files[i].kind, Tr.files[i].man, Tr.files[i].cycle>> : i \in 1..Len(Tr.files)}
(* the mesh file that belongs to a file of cycle c: the last one not after c *)
MeshKey(i, c) == LET C == {k[3] : k \in {k \in Keys : k[1] = "points" /\ k[2] = i /\ k[3] <= c}}
                 IN <<"points", i, CHOOSE x \in C : \A y \in C : y <= x>>
(* every row describes a point, and every point is described *)
Described(i, cd) == /\ Len(cd) = Len(ms[i].pts)
                    /\ \A r \in 1..Len(cd) : cd[r] # {}
                    /\ UNION {cd[r] : r \in 1..Len(cd)} = 1..Len(ms[i].pts)
(* rows of a file match the points, in the order of the mesh file *)
Rows(i, c, want, got) ==
  \E cd \in {cand[Index(MeshKey(i, c))]} :
  \E hit \in {[r \in 1..Len(got) |-> {j \in cd[r] : RowOk(want[j], got[r])}]} :
     /\ Len(got) = Len(cd) /\ Described(i, hit)
Header(f) == f.header = Tr.header
FileOk(key) ==
  LET want == files[key]  got == File(key)  i == key[2]
  IN CASE key[1] = "points" ->
            Described(i, cand[Index(key)])
       [] key[1] = "inst" -> Header(got) /\ Near(want.t, got.t, "1e-3") /\ Rows(i, key[3], want.rows, got.rows)
       [] key[1] = "tavg" -> /\ Header(got) /\ Near(want.from, got.from, "1") /\ Near(want.to, got.to, "1e-3")
                             /\ Rows(i, key[3], want.rows, got.rows)
       [] key[1] = "series" -> /\ Header(got) /\ Len(got.rows) = Len(want.rows)
                               /\ \A k \in 1..Len(got.rows) : Near(want.rows[k].t, got.rows[k].t, "1e-3")
                                                              /\ RowOk(want.rows[k], got.rows[k])
FilesOk == DOMAIN files = Keys /\ Cardinality(Keys) = Len(Tr.files) /\ \A key \in Keys : FileOk(key)

More == pos <= Len(Tr.ev)
TraceNext ==
  \/ /\ More
     /\ CASE Ev.e = "prep" -> Prepare
          [] Ev.e = "acc" -> \E v \in {Field(Tr, Ev.U)} : Accumulate(Ev.t, v)
          [] Ev.e = "write" -> \E v \in {Field(Tr, Ev.U)} : Write(ms, Ev.t, v, Ev.cycle, Tr.clear = 1)
     /\ pos' = pos + 1 /\ UNCHANGED <<tid, ms, cand>>
  \/ ~More /\ FilesOk /\ PrintT("ACC " \o ToJson([tid |-> tid])) /\ UNCHANGED tvars
=============================================================================
