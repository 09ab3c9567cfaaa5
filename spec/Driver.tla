------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* One invocation of the program: command line, files, the parameter file  *)
(* as a sequence of assignments, the registered equations, and what is     *)
(* left behind: simulations, created files, success or failure.            *)
(*                                                                         *)
(* cmd = [args: paths after the program name, default: its default file,   *)
(*        files: path -> sequence of [s: section, k: key, v: value,        *)
(*        ok: the value belongs to the type of the key]]                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Registered                \* sequence of equation names, in the order of registration
VARIABLES cmd, stage, file, eq, dim, next, runs, created, failed
dvars == <<cmd, stage, file, eq, dim, next, runs, created, failed>>

Names == {Registered[k] : k \in 1..Len(Registered)}
(* equations with the configurations of gas dynamics, of a gas with gamma *)
Gases == {"euler", "euler aeos", "navier stokes"}
(* where a key is declared; sections and keys that are not listed here are unknown *)
Declared(e, d, s, k) ==
  CASE s = "A - TimeLoop" -> k \in {"basename", "final time"}
    [] s = "B - Equation" ->
         \/ k \in {"dimension", "equation"}
         \/ k = "gamma" /\ e \in {"euler", "navier stokes"}
         \/ k \in {"mu", "lambda", "kappa"} /\ e = "navier stokes"
         \/ k \in {"gravity", "manning friction coefficient"} /\ e = "shallow water"
         \/ k = "flux" /\ e = "scalar conservation"
         \/ k = "equation of state" /\ e = "euler aeos"
    [] s = "C - Discretization" -> k \in {"mesh refinement", "geometry"}
    [] s = "E - InitialValues" -> k \in {"configuration", "direction", "position", "perturbation"}
    [] s = "E - InitialValues/uniform" -> k = "primitive state"
    [] s = "E - InitialValues/soliton" -> e = "shallow water" /\ k = "amplitude"
    [] s = "E - InitialValues/paraboloid" -> e = "shallow water" /\ ((k = "eta" /\ d > 1) \/ (k = "paraboloid length" /\ d = 1))
    [] s = "E - InitialValues/shock front" -> e \in Gases /\ (k = "mach number" \/ (k = "gamma" /\ e = "euler aeos"))
    [] OTHER -> FALSE
Last(f, s, k) == LET I == {i \in 1..Len(f) : f[i].s = s /\ f[i].k = k}
                 IN IF I = {} THEN [v |-> "", ok |-> FALSE] ELSE f[CHOOSE i \in I : \A j \in I : j <= i]
Default(s, k) == CASE k = "final time" -> "5" [] k = "mesh refinement" -> "5" [] OTHER -> ""
Effective(f, s, k) == LET I == {i \in 1..Len(f) : f[i].s = s /\ f[i].k = k} IN IF I = {} THEN Default(s, k) ELSE Last(f, s, k).v
Path(c) == IF c.args = <<>> THEN c.default ELSE c.args[1]
Underscore == [n \in {"euler", "euler aeos", "navier stokes", "scalar conservation", "shallow water", "skeleton"} |->
  CASE n = "euler aeos" -> "euler_aeos" [] n = "navier stokes" -> "navier_stokes" [] n = "scalar conservation" -> "scalar_conservation"
    [] n = "shallow water" -> "shallow_water" [] OTHER -> n]
Templates(n) == {"default_parameters-" \o Underscore[n] \o d \o ".prm" : d \in {"-1d", "-2d", "-3d", "-2d-description"}}

DInit(c) == /\ cmd = c /\ stage = "start" /\ file = <<>> /\ eq = "" /\ dim = 0 /\ next = 1
            /\ runs = <<>> /\ created = {} /\ failed = FALSE
Stop(f) == stage' = "end" /\ failed' = f
Arguments ==
  /\ stage = "start" /\ UNCHANGED <<cmd, file, eq, dim, next, runs, created>>
  /\ IF Len(cmd.args) > 1 THEN Stop(TRUE)
     ELSE IF Path(cmd) \in DOMAIN cmd.files THEN stage' = "parse" /\ UNCHANGED failed
     ELSE IF cmd.args # <<>> THEN Stop(TRUE) ELSE stage' = "templates" /\ UNCHANGED failed
(* every equation writes its templates; the program asks to be started again *)
Create == /\ stage = "templates" /\ created' = UNION {Templates(n) : n \in Names} /\ Stop(TRUE)
          /\ UNCHANGED <<cmd, file, eq, dim, next, runs>>
(* first pass: equation and dimension only *)
Parse ==
  /\ stage = "parse" /\ UNCHANGED <<cmd, next, runs, created>>
  /\ LET f == cmd.files[Path(cmd)]
         d == Last(f, "B - Equation", "dimension")
     IN /\ file' = f /\ eq' = Effective(f, "B - Equation", "equation")
        /\ IF d.ok /\ d.v \in {"1", "2", "3"}
           THEN dim' = (CASE d.v = "1" -> 1 [] d.v = "2" -> 2 [] d.v = "3" -> 3) /\ stage' = "listener" /\ UNCHANGED failed
           ELSE dim' = 0 /\ Stop(TRUE)
(* second pass by the listener that is addressed: every assignment has to be declared and valid *)
Valid == \A i \in 1..Len(file) : file[i].ok /\ (cmd.template \/ Declared(eq, dim, file[i].s, file[i].k))
Simulation == [eq |-> eq, dim |-> dim, basename |-> Effective(file, "A - TimeLoop", "basename"), final |-> Effective(file, "A - TimeLoop", "final time"),
               level |-> Effective(file, "C - Discretization", "mesh refinement")]
Listener ==
  /\ stage = "listener" /\ next <= Len(Registered) /\ UNCHANGED <<cmd, file, eq, dim, created>>
  /\ IF Registered[next] # eq THEN next' = next + 1 /\ UNCHANGED <<stage, runs, failed>>
     ELSE IF runs # <<>> \/ ~Valid THEN Stop(TRUE) /\ UNCHANGED <<next, runs>>
     ELSE runs' = Append(runs, Simulation) /\ next' = next + 1 /\ UNCHANGED <<stage, failed>>
Finish == /\ stage = "listener" /\ next > Len(Registered) /\ Stop(runs = <<>>) /\ UNCHANGED <<cmd, file, eq, dim, next, runs, created>>
DNext == Arguments \/ Create \/ Parse \/ Listener \/ Finish

(* properties *)
AtMostOne == Len(runs) <= 1
Success == stage = "end" => (failed <=> runs = <<>>)
Named == \A i \in 1..Len(runs) : runs[i].eq = Last(cmd.files[Path(cmd)], "B - Equation", "equation").v
Refusal == (stage = "end" /\ cmd.args # <<>>) => created = {}
OnlyTemplates == created # {} => (runs = <<>> /\ cmd.args = <<>> /\ cmd.default \notin DOMAIN cmd.files)
=============================================================================
