----------------------------- MODULE MCParallel -----------------------------
(* The kernels of one update of the solver on a chain of nodes that two processes share.  STYLE chooses what a
   discontinuous ansatz does with bounds: "none" (continuous), "extended" (combined bounds in a second field),
   "inplace" (overwritten: must be detected).  EXPORTS: number of exported rows announced. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS STYLE, PART, ORDER, THREADS, ASYNC, NEXP, NINT, NOWN
VARIABLES kern, part, chunk, ready, sent, ver, mail, bad
vars == <<kern, part, chunk, ready, sent, ver, mail, bad>>
B == STYLE # "none"
TheKernels ==
  << [nb |-> {}, own |-> {"U"}, w |-> {"U"}, x |-> {"U"}],                                        \* boundary conditions
     [nb |-> {"U"}, own |-> {}, w |-> {"pre"}, x |-> {"pre"}],                                     \* precomputation
     [nb |-> {"U", "pre"}, own |-> {}, w |-> {"alpha", "d"}, x |-> {"alpha"}],                      \* indicator, viscosity
     [nb |-> {"U", "pre", "alpha"}, own |-> {"d"}, w |-> {"new", "r", "p", "bounds"},
      x |-> IF B THEN {"r", "bounds"} ELSE {"r"}],                                                  \* low-order update
     [nb |-> IF B THEN {"r", "bounds"} ELSE {"r"}, own |-> {"new", "p", "bounds"},
      w |-> {"p", "l"} \cup (IF STYLE = "inplace" THEN {"bounds"} ELSE IF B THEN {"ext"} ELSE {}), x |-> {"l"}], \* limiter
     [nb |-> {"l"}, own |-> {"new", "p"} \cup (IF STYLE = "extended" THEN {"ext"} ELSE {"bounds"}),
      w |-> {"new", "lnext"}, x |-> {"lnext"}],                                                     \* high-order update, limiter
     [nb |-> {"lnext"}, own |-> {"new", "p"}, w |-> {"new"}, x |-> {"new"}] >>
Part == SubSeq(TheKernels, PART[1], PART[2])
(* a chain: process 1 has the nodes 1..NOWN, process 2 the following ones; the nodes at the interface are exported *)
Chain == 1..(2 * NOWN)
ChainNbr(n) == {m \in Chain : m \in (n - 1)..(n + 1)}
ChainOwner(n) == IF n <= NOWN THEN 1 ELSE 2
(* local indices: the interface first in the vectorized range, or behind it *)
ChainLocal(n) == IF ORDER = "first" THEN IF n <= NOWN THEN NOWN + 1 - n ELSE n - NOWN
                 ELSE IF n <= NOWN THEN n ELSE 2 * NOWN + 1 - n
P == INSTANCE Parallel WITH Kernels <- Part, Procs <- {1, 2}, NThreads <- THREADS, Async <- ASYNC,
       Nodes <- Chain, Nbr <- ChainNbr, Owner <- ChainOwner, Local <- ChainLocal, NExp <- NEXP, NInt <- NINT, NOwn <- NOWN
Spec == P!PInit /\ [][P!PNext]_vars /\ WF_vars(P!PNext)
Sequential == P!Sequential
Agreed == P!Agreed
Fresh == P!Fresh
Ends == <>P!PDone
=============================================================================
