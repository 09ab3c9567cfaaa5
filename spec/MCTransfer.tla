------------------------------ MODULE MCTransfer ------------------------------
(* Any sequence of adaptations of a small quadtree mesh: refinement, and
   coarsening of families, never changes a linear function, refinement followed
   by coarsening is the identity, and meshes always tile the domain.           *)
EXTENDS Transfer
CONSTANTS Size, MaxSteps
VARIABLES mesh, f, f0, n
mvars == <<mesh, f, f0, n>>
Root == <<0, 0, Size>>
(* two components: a linear function, and one that is 16 in one corner *)
Lin(p) == 3 * p[1] - 2 * p[2] + 7
Bump(p) == IF p = <<0, 0>> THEN 64 ELSE 0
Val(p) == <<Lin(p), Bump(p)>>
MCInit == /\ mesh = {<<0, 0, Size>>} /\ f = [c \in {Root} |-> [k \in 1..4 |-> Val(Corner(c, k - 1))]]
          /\ f0 = f /\ n = 0
Apply(new) == [c \in new |-> [k \in 1..4 |-> [m \in 1..2 |-> Interp4(f, mesh, c, k - 1, m) \div 4]]]
Refine(S) == (mesh \ S) \cup UNION {ChildrenOf(c) : c \in S}
Families == {p \in {ParentOf(c) : c \in mesh} : ChildrenOf(p) \subseteq mesh}
Adapt == /\ n < MaxSteps
         /\ \E S \in SUBSET {c \in mesh : c[3] > 1}, P \in SUBSET Families :
              /\ \A p \in P : ChildrenOf(p) \cap S = {}
              /\ LET new == (Refine(S) \ UNION {ChildrenOf(p) : p \in P}) \cup P
                 IN /\ new # mesh /\ Cardinality(new) <= 16
                    /\ mesh' = new /\ f' = Apply(new) /\ n' = n + 1 /\ UNCHANGED f0
Spec == MCInit /\ [][Adapt \/ UNCHANGED mvars]_mvars
Area(c) == c[3] * c[3]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Area(c) + Sum(S \ {c})
Tiling == Sum(mesh) = Size * Size
Linear == \A c \in mesh : \A k \in 1..4 : f[c][k][1] = Lin(Corner(c, k - 1))
InRange == \A c \in mesh : \A k \in 1..4 : f[c][k][2] \in 0..64
Steps == [][ValidStep(mesh, mesh') /\ Transferred(f, mesh, f', mesh', {}, 2, 1)]_mvars
BackAgain == (mesh = {Root}) => f = f0
=============================================================================
