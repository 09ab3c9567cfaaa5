#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist in tools/checks, the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification model checked with TLC; recorded executions of the real code validated against it by TLC"
T = {
 "C01": (TRACE, "TimeLoop.tla: exhaustive over small schedules; real TimeLoop runs (1-3 ranks, 1-2 dimensions) accepted or rejected by TLC event by event"),
 "C02": (TRACE, "Integrator.tla: all 13 schemes, order conditions and stage times evaluated by TLC; coefficients recovered from real steps"),
 "C03": (TRACE, "Integrator.tla with every failure pattern and both recovery strategies; the real integrator runs with injected violations"),
 "C04": (TRACE, "Scheme.tla: graph viscosities, CFL bound and low-order update in exact rational arithmetic; every recorded step size and low-order update of the real module must equal the specified one"),
 "C05": (TRACE, "MCScheme.tla: exhaustive over indicators and limiter answers; totals and boundary fluxes of recorded updates of all equations and schemes evaluated exactly by TLC"),
 "C06": (TRACE, "MCScheme.tla: bounds and maximum principle; recorded updates from extreme random states checked exactly (positivity, bar state bounds, entropy)"),
 "C07": (TRACE, "MCLimiter.tla: the line search as an algorithm, exhaustive over small sets of states, updates and bounds; bounds, combinations and coefficients of the real limiters of all equations for random stencils and updates must satisfy Limiter.tla exactly"),
 "C08": (TRACE, "Riemann.tla: certificate of a bound without root finding, model checked on the estimate as an algorithm; estimates of the real solvers of all equations for random admissible pairs must satisfy it exactly"),
 "C12": (TRACE, "Checkpoint.tla and Restart.tla: every crash point of the write protocol and every sequence of processes, exhaustive in the model; the real writer is stopped after every file operation, real processes resume from every state of the disk, and chains of processes must be behaviours of the run schedule"),
 "C13": (TRACE, "Transfer.tla and TimeLoop.tla: when meshes are adapted, which cells, and that the state is the interpolant; outputs of real runs around adaptations must be behaviours of the specification"),
 "C09": (TRACE, "Parallel.tla: all interleavings of a small synchronization model; executions of the real solver with different processes, threads and overlap must be the same behaviour"),
 "C11": (TRACE, "Offline.tla: operators by exact integration, identities on all small meshes; the recorded matrices, layouts and boundary maps of real meshes must be those of the specification, entry by entry"),
 "C14": (TRACE, "Quantities.tla: exhaustive histories of a small model; the files the real class writes after random histories of calls must be those of the specification, number by number"),
 "C15": (TRACE, "Algebra.tla: what each boundary type imposes, applied to the nodes of a box with affine data; recorded calls and prepared states of the real modules must equal it"),
 "C10": (TRACE, "Storage.tla: abstract matrix and vector state; packed exchange and memory positions model-checked (MCStorage), random histories on the real classes must be behaviours (TraceStorage)"),
 "C16": (TRACE, "Initial.tla: all initial configurations in exact arithmetic; values, stencils, fronts and interpolated vectors of the real classes must satisfy them"),
 "C19": (TRACE, "Parabolic.tla: the discretized equations, balances, boundary conditions and minimum principle of a parabolic step (MCParabolic); recorded steps of the real module must satisfy them (TraceParabolic)"),
    "C21": (TRACE, "Vtu.tla: cells, fields, values and normalized derived fields of the written files (MCVtu, TraceVtu)"),
 "C17": (TRACE, "Driver.tla: all small command lines and files explored; recorded invocations of the real driver must leave behind what the specification does"),
 "C18": (TRACE, "Algebra.tla over dual numbers: identities proved by TLC on grids of states; all functions of the real views for random states and gas laws must agree"),
 "C20": (TRACE, "TraceScheme.tla: uniform states, lakes at rest and friction: recorded steps of all schemes and equations must be stuttering steps of the specification"),
}
NOT = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in T and os.path.exists(os.path.join(V, "tools", "checks", p.lower() + ".py")):
        tech, note = T[p]
        checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p} --tier quick",
                           thorough_cmd=f"python3 tools/check.py {p} --tier thorough",
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason=NOT.get(p, "the specification and its conformance harness for this property are not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/mk.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
