----------------------------- MODULE MCStorage -----------------------------
(* The protocol behind Storage: packed messages between two processes with two rows each, for every symmetric
   coupling and every choice of additional foreign rows; and the positions of the entries in memory, with the index of the
   transposed entry that is kept per entry.  MATCH: a process sends only to the processes of which it knows rows. *)
EXTENDS Storage, TLC
CONSTANTS N1, N2, MATCH, WIDTHS, COMPS, LENGTHS
VARIABLES lay, mem, box, abs, wire, phase, hist
vars == <<lay, mem, box, abs, wire, phase, hist>>
N == N1 + N2
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i < j}
Sort(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A k, l \in 1..Cardinality(S) : k < l => s[k] < s[l]
Lay(E, X) ==
  LET nb == [i \in 1..N |-> {i} \cup {j \in 1..N : <<i, j>> \in E \/ <<j, i>> \in E}]
      own == <<1..N1, (N1 + 1)..N>>
      g(p) == (UNION {nb[i] : i \in own[p]} \cup X) \ own[p]
  IN [np |-> 2, lo |-> <<1, N1 + 1>>, hi |-> <<N1, N>>, nint |-> <<0, 0>>, ghosts |-> <<Sort(g(1)), Sort(g(2))>>,
      cols |-> [i \in 1..N |-> Sort(nb[i])]]

(* the columns of a row in memory: the diagonal, then the others in the local numbering: own rows, foreign rows *)
InOrder(L, p, i) ==
  LET S == RowCols(L, p, i) \ {i} IN <<i>> \o Sort(S \cap Owned(L, p)) \o Sort(S \ Owned(L, p))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Rows(L, p, q) == Sort({i \in GhostRows(L, p) : Owner(L, i) = q})      \* rows of q that p knows
(* q sends to p, for the rows that p knows: the diagonal, and the columns in the range of foreign rows of p *)
Packed(L, q, p) ==
  IF MATCH /\ Rows(L, q, p) = <<>> THEN <<>>
  ELSE Flat([k \in 1..Len(Rows(L, p, q)) |->
         LET r == Rows(L, p, q)[k] c == InOrder(L, q, r)
         IN [l \in 1..Len(SelectSeq(c, LAMBDA j : j = r \/ (j \in GhostRows(L, q) /\ Owner(L, j) = p))) |->
               <<r, SelectSeq(c, LAMBDA j : j = r \/ (j \in GhostRows(L, q) /\ Owner(L, j) = p))[l]>>]])
(* p unpacks into its rows one after the other *)
Slots(L, p, q) ==
  Flat([k \in 1..Len(Rows(L, p, q)) |-> LET r == Rows(L, p, q)[k] c == InOrder(L, p, r) IN [l \in 1..Len(c) |-> <<r, c[l]>>]])
Other(p) == 3 - p
Unpack(L, p, m, msg) ==
  LET s == Slots(L, p, Other(p))
  IN [e \in DOMAIN m |-> IF \E k \in 1..Len(msg) : s[k] = e THEN msg[CHOOSE k \in 1..Len(msg) : s[k] = e] ELSE m[e]]

Fill(L, p, v) == [e \in Entries(L, p) |-> IF e[1] \in Owned(L, p) THEN <<v>> \o e ELSE <<>>]
Init ==
  /\ \E E \in SUBSET Pairs : \E X \in SUBSET (1..N) : lay = Lay(E, X)
  /\ mem = [p \in 1..2 |-> Fill(lay, p, 0)] /\ abs = mem /\ box = <<>> /\ wire = <<>> /\ phase = "idle" /\ hist = 0
Write == \E p \in 1..2 :
  /\ hist < 2 /\ mem' = [mem EXCEPT ![p] = [e \in DOMAIN @ |-> IF e[1] \in Owned(lay, p) THEN <<hist + 1>> \o e ELSE @[e]]]
  /\ abs' = Put(abs, p, OwnEntries(lay, p), LAMBDA e : <<hist + 1>> \o e)
  /\ hist' = hist + 1 /\ UNCHANGED <<lay, box, wire, phase>>
Start ==
  /\ phase = "idle" /\ hist < 2 /\ phase' = "wait" /\ wire' = Capture(lay, abs)
  /\ box' = [p \in 1..2 |-> LET m == Packed(lay, Other(p), p) IN [k \in 1..Len(m) |-> mem[Other(p)][m[k]]]]
  /\ abs' = Void(lay, abs) /\ UNCHANGED <<lay, mem, hist>>
(* a message arrives at any time *)
Arrive == \E p \in 1..2 :
  /\ phase = "wait" /\ box[p] # <<>> /\ mem' = [mem EXCEPT ![p] = Unpack(lay, p, @, box[p])]
  /\ box' = [box EXCEPT ![p] = <<>>] /\ UNCHANGED <<lay, abs, wire, phase, hist>>
Finish ==
  /\ phase = "wait" /\ box = <<<<>>, <<>>>> /\ phase' = "idle" /\ hist' = hist + 1
  /\ abs' = Deliver(lay, abs, wire)
  /\ UNCHANGED <<lay, mem, box, wire>>
Next == Write \/ Start \/ Arrive \/ Finish \/ (hist >= 2 /\ phase = "idle" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Valid == LayoutOk(lay)
(* a message fits into the rows it is received into *)
Fits == phase = "wait" => \A p \in 1..2 : Len(box[p]) \in {0, Len(Slots(lay, p, Other(p)))}
Refined == \A p \in 1..2 : \A e \in DOMAIN mem[p] : abs[p][e] # <<>> => mem[p][e] = abs[p][e]

---------------------------------------------------------------------------
(* positions: blocks of w rows with len[b] columns, followed by plain rows with one of the lengths *)
Start0(w, len, b) == LET RECURSIVE S(_)
                         S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + len[k] * w
                     IN S(b - 1)
Positions(w, n, len, tail) ==
  {[r |-> b * w + o, k |-> k, d |-> d, at |-> Interleaved(Start0(w, len, b + 1), w, n, b * w + o, k, d)] :
      b \in 0..(Len(len) - 1), o \in 0..(w - 1), k \in 0..3, d \in 0..(n - 1)}
InUse(w, n, len, tail) == {e \in Positions(w, n, len, tail) : e.k < len[e.r \div w + 1]}
   \cup {[r |-> Len(len) * w, k |-> k, d |-> d, at |-> Plain(Start0(w, len, Len(len) + 1), n, k, d)] : k \in 0..(tail - 1), d \in 0..(n - 1)}
Size(w, n, len, tail) == (Start0(w, len, Len(len) + 1) + tail) * n
(* the index kept per entry, from the position in a plain numbering of the entries, and the access through it *)
CSR(w, len, r, k) == Start0(w, len, r \div w + 1) + (r % w) * len[r \div w + 1] + k
Kept(w, len, r, k) == CSR(w, len, r, k) - (r % w) * len[r \div w + 1] - k + (r % w) + k * w
Through(w, n, i, d) == ((i \div w) * w * n) + w * d + (i % w)
MemoryOk ==
  \A w \in WIDTHS : \A n \in COMPS : \A len \in [1..2 -> LENGTHS] : \A tail \in LENGTHS :
    LET U == InUse(w, n, len, tail)
    IN /\ {e.at : e \in U} = 0..(Size(w, n, len, tail) - 1)
       /\ Cardinality(U) = Size(w, n, len, tail)
       /\ \A e \in U : e.r < 2 * w => Through(w, n, Kept(w, len, e.r, e.k), e.d) = e.at
Memory == hist = 0 /\ phase = "idle" /\ mem = abs /\ lay.cols[1] = <<1>> /\ lay.ghosts = <<<<>>, <<>>>> => MemoryOk
=============================================================================
