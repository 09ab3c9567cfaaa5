------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* One update on several processes with several threads each: kernels that *)
(* loop over the rows of a process, read fields at neighbouring nodes,     *)
(* write fields at their own row, and exchange ghost values, either after  *)
(* the loop or, asynchronously, as soon as every thread of a process has   *)
(* passed the exported rows.                                               *)
(*                                                                         *)
(* A value is represented by its version: the number of the kernel that    *)
(* wrote it last.  The result of an update does not depend on the          *)
(* partition and the schedule iff every read sees the version that the     *)
(* sequential execution of the kernels one after the other shows.          *)
(*                                                                         *)
(* kernels[k] = [nb: fields read at neighbours, own: fields read at the    *)
(*               own row, w: fields written, x: fields exchanged]          *)
(* Rows of process p: 1..nexp exported, ..nint vectorized range, ..nown.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kernels, Procs, NThreads, Async
CONSTANTS Nodes, Nbr(_), Owner(_), Local(_), NExp, NInt, NOwn
(* Nodes: global nodes; Nbr: neighbours with the node itself; Local: local index at the owner *)

VARIABLES kern,    \* current kernel of a process
          part,    \* 1: rows behind the vectorized range, 2: vectorized range, 3: waiting for the exchange
          chunk,   \* rows still to be visited, per thread
          ready,   \* threads that passed the exported rows
          sent,    \* the exchange of the current kernel has been started
          ver,     \* ver[p][f][n]: version of field f at node n as seen by process p
          mail,    \* mail[p][k]: versions of the exchanged fields when process p started the exchange of kernel k
          bad      \* a read saw another version than the sequential execution
pvars == <<kern, part, chunk, ready, sent, ver, mail, bad>>

Threads == 1..NThreads
K == Len(Kernels)
Fields == UNION {Kernels[k].nb \cup Kernels[k].own \cup Kernels[k].w : k \in 1..K}
Rows(p) == {n \in Nodes : Owner(n) = p}
Ghosts(p) == {n \in Nodes \ Rows(p) : \E m \in Rows(p) : n \in Nbr(m)}
Seen(p) == Rows(p) \cup Ghosts(p)
NodeAt(p, l) == CHOOSE n \in Rows(p) : Local(n) = l

(* static distribution of the loop lo+1..hi *)
Chunk(lo, hi, t) ==
  LET n == hi - lo  a == lo + ((t - 1) * n) \div NThreads  b == lo + (t * n) \div NThreads
  IN [i \in 1..(b - a) |-> a + i]
Chunks(lo, hi) == [t \in Threads |-> Chunk(lo, hi, t)]

(* the version of f that a read in kernel k has to see *)
Last(f, k) == LET W == {j \in 1..(k - 1) : f \in Kernels[j].w} IN IF W = {} THEN 0 ELSE CHOOSE j \in W : \A i \in W : i <= j
(* a field that the kernel itself updates is read at its own row before the update *)
ReadsOk(p, k, n) ==
  /\ \A f \in Kernels[k].nb : \A m \in Nbr(n) : ver[p][f][m] = Last(f, k)
  /\ \A f \in Kernels[k].own : ver[p][f][n] = Last(f, k)

PInit ==
  /\ kern = [p \in Procs |-> 1] /\ part = [p \in Procs |-> 1]
  /\ chunk = [p \in Procs |-> Chunks(NInt, NOwn)]
  /\ ready = [p \in Procs |-> {}] /\ sent = [p \in Procs |-> FALSE]
  /\ ver = [p \in Procs |-> [f \in Fields |-> [n \in Seen(p) |-> 0]]]
  /\ mail = [p \in Procs |-> [k \in 1..K |-> <<>>]]
  /\ bad = FALSE

Post(p, k) == [f \in Kernels[k].x |-> [n \in Rows(p) |-> ver[p][f][n]]]

(* thread t visits its next row; the check for the exchange comes first *)
Visit(p, t) ==
  /\ kern[p] <= K /\ part[p] \in {1, 2} /\ chunk[p][t] # <<>>
  /\ LET l == Head(chunk[p][t])  n == NodeAt(p, l)  k == kern[p]
         now == IF Async /\ l > NExp /\ l <= NInt THEN ready[p] \cup {t} ELSE ready[p]
         start == Async /\ ~sent[p] /\ now = Threads /\ ready[p] # Threads
     IN /\ ready' = [ready EXCEPT ![p] = now]
        /\ sent' = [sent EXCEPT ![p] = @ \/ start]
        /\ mail' = IF start THEN [mail EXCEPT ![p][k] = Post(p, k)] ELSE mail
        /\ bad' = (bad \/ ~ReadsOk(p, k, n))
        /\ ver' = [ver EXCEPT ![p] = [f \in Fields |-> IF f \in Kernels[k].w THEN [@[f] EXCEPT ![n] = k] ELSE @[f]]]
        /\ chunk' = [chunk EXCEPT ![p][t] = Tail(@)]
  /\ UNCHANGED <<kern, part>>
(* barrier at the end of a loop *)
Loop(p) ==
  /\ kern[p] <= K /\ part[p] \in {1, 2} /\ \A t \in Threads : chunk[p][t] = <<>>
  /\ part' = [part EXCEPT ![p] = @ + 1]
  /\ chunk' = [chunk EXCEPT ![p] = IF part[p] = 1 THEN Chunks(0, NInt) ELSE @]
  /\ UNCHANGED <<kern, ready, sent, ver, mail, bad>>
(* after the loops the exchange is started unless it has been *)
Start(p) ==
  /\ kern[p] <= K /\ part[p] = 3 /\ ~sent[p]
  /\ sent' = [sent EXCEPT ![p] = TRUE] /\ mail' = [mail EXCEPT ![p][kern[p]] = Post(p, kern[p])]
  /\ UNCHANGED <<kern, part, chunk, ready, ver, bad>>
(* it ends when all neighbours have posted theirs *)
Finish(p) ==
  /\ kern[p] <= K /\ part[p] = 3 /\ sent[p]
  /\ LET k == kern[p]
     IN /\ \A n \in Ghosts(p) : mail[Owner(n)][k] # <<>> \/ Kernels[k].x = {}
        /\ ver' = [ver EXCEPT ![p] = [f \in Fields |-> IF f \in Kernels[k].x
                     THEN [n \in Seen(p) |-> IF n \in Ghosts(p) THEN mail[Owner(n)][k][f][n] ELSE @[f][n]] ELSE @[f]]]
        /\ kern' = [kern EXCEPT ![p] = k + 1]
  /\ part' = [part EXCEPT ![p] = 1] /\ chunk' = [chunk EXCEPT ![p] = Chunks(NInt, NOwn)]
  /\ ready' = [ready EXCEPT ![p] = {}] /\ sent' = [sent EXCEPT ![p] = FALSE]
  /\ UNCHANGED <<mail, bad>>
PDone == \A p \in Procs : kern[p] = K + 1
PNext == (\E p \in Procs : (\E t \in Threads : Visit(p, t)) \/ Loop(p) \/ Start(p) \/ Finish(p))
         \/ (PDone /\ UNCHANGED pvars)

(* independence of the schedule, and what the owner has is what the others see *)
Sequential == ~bad
Agreed == PDone => \A p \in Procs : \A f \in Fields : \A n \in Rows(p) : ver[p][f][n] = Last(f, K + 1)
(* every exported row is posted after it was computed *)
Fresh == \A p \in Procs : \A k \in 1..K : mail[p][k] # <<>> =>
           \A f \in DOMAIN mail[p][k] : \A n \in Rows(p) :
             (\E q \in Procs : n \in Ghosts(q)) => mail[p][k][f][n] = Last(f, k + 1)
=============================================================================
