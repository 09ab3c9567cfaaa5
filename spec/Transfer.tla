------------------------------- MODULE Transfer -------------------------------
(***************************************************************************)
(* Mesh adaptation in two dimensions: quadtree meshes with values of a      *)
(* bilinear finite element function in the corners of the cells.            *)
(* Cells <<x, y, s>> (lower left corner, size) in integer units; a field is  *)
(* a function from cells to four corners (lexicographic) of a sequence of   *)
(* integer components (values in fixed units).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Corner(c, k) == <<c[1] + (k % 2) * c[3], c[2] + (k \div 2) * c[3]>>    \* k in 0..3
ParentOf(c) == LET d == 2 * c[3] IN <<c[1] - (c[1] % d), c[2] - (c[2] % d), d>>
ChildrenOf(c) == LET h == c[3] \div 2 IN {<<c[1] + a * h, c[2] + b * h, h>> : a, b \in {0, 1}}
Child(c, k) == LET h == c[3] \div 2 IN <<c[1] + (k % 2) * h, c[2] + (k \div 2) * h, h>>

(* which cells of the old mesh a cell of the new mesh stems from *)
IsSame(old, c) == c \in old
IsChild(old, c) == ParentOf(c) \in old
IsParent(old, c) == ChildrenOf(c) \subseteq old
ValidStep(old, new) ==
  /\ \A c \in new : IsSame(old, c) \/ IsChild(old, c) \/ IsParent(old, c)
  /\ \A c \in old : \/ c \in new \/ ChildrenOf(c) \subseteq new \/ ParentOf(c) \in new
RefinedCells(old, new) == {c \in old : ChildrenOf(c) \subseteq new}
CoarsenedCells(old, new) == {c \in old : c \notin new /\ ParentOf(c) \in new}

(* bilinear interpolation of a cell at (a, b) / 2, times four *)
At4(v, a, b, m) == (2 - a) * (2 - b) * v[1][m] + a * (2 - b) * v[2][m]
                 + (2 - a) * b * v[3][m] + a * b * v[4][m]
(* value of the old function in corner k (0..3) of the new cell c, times four *)
Interp4(f, old, c, k, m) ==
  IF c \in old THEN 4 * f[c][k + 1][m]
  ELSE IF ParentOf(c) \in old
  THEN LET p == ParentOf(c) x == Corner(c, k)
       IN At4(f[p], (2 * (x[1] - p[1])) \div p[3], (2 * (x[2] - p[2])) \div p[3], m)
  ELSE 4 * f[Child(c, k)][k + 1][m]

(* points in the middle of an edge of a cell of the mesh, with the ends of that edge *)
Edges(c) == {<<Corner(c, 0), Corner(c, 1)>>, <<Corner(c, 2), Corner(c, 3)>>,
             <<Corner(c, 0), Corner(c, 2)>>, <<Corner(c, 1), Corner(c, 3)>>}
Mid(e) == <<(e[1][1] + e[2][1]) \div 2, (e[1][2] + e[2][2]) \div 2>>
Mids(mesh) == {Mid(e) : e \in UNION {Edges(c) : c \in mesh}}
Abs(x) == IF x < 0 THEN -x ELSE x
(* The new function is the interpolant of the old one in every point that is
   not a hanging node.  free: points that are not judged (hanging nodes)       *)
Transferred(f, old, g, new, free, ncomp, tol) ==
  \A c \in new : \A k \in 0..3 :
     Corner(c, k) \in free \/ \A m \in 1..ncomp : Abs(4 * g[c][k + 1][m] - Interp4(f, old, c, k, m)) <= 4 * tol
(* a conforming function: equal values in equal points *)
Conforming(g, mesh, ncomp, tol) ==
  \A c \in mesh : \A e \in Edges(c) :
     LET x == Mid(e) fine == {d \in {<<x[1] - c[3] \div 2, x[2], c[3] \div 2>>, <<x[1], x[2] - c[3] \div 2, c[3] \div 2>>,
                                     <<x[1], x[2], c[3] \div 2>>,
                                     <<x[1] - c[3] \div 2, x[2] - c[3] \div 2, c[3] \div 2>>} : d \in mesh}
         val(p, d) == CHOOSE k \in 0..3 : Corner(d, k) = p
     IN \A d \in fine : x \notin {Corner(d, k) : k \in 0..3} \/
          \A m \in 1..ncomp :
             Abs(2 * g[d][val(x, d) + 1][m] - g[c][val(e[1], c) + 1][m] - g[c][val(e[2], c) + 1][m]) <= 2 * tol
=============================================================================
