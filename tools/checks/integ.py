"""Shared by C02 and C03: model of the time integrators and runs of the real ones."""
import os, json
import fem, run as runner, tlc

Q, K = 1200000, 8
NA = 999999999
EXPLICIT = ["ssprk 22", "ssprk 33", "erk 11", "erk 22", "erk 33", "erk 43", "erk 54"]
IMEX = ["strang ssprk 33 cn", "strang erk 33 cn", "strang erk 43 cn", "imex 11"]
INV = ["StageTimes", "PreparedBeforeUse", "Advance", "StepSize", "Recovery", "OrderConditions",
       "StrangSymmetric", "SourceConsistent"]
LEVEL = 5


def scenarios(ctx, ranks):
    """All behaviours of the model with at most two moments of failure."""
    out = []
    for chosen, q in [(set(EXPLICIT + IMEX) - {"erk 54"}, 1200), ({"erk 54"}, 1000)]:
        r = ctx.model_ok("MCIntegrator", f"{len(chosen)} scheme(s), {ranks} rank(s), all failure patterns",
                         init="MCInit", next="MCNext", invariants=INV + ["Emit"], constraint="Bound",
                         constants=dict(Q=q, K=K, NRanks=ranks, Chosen=chosen))
        out += tlc.prints(r, "SCEN")
    uniq = {json.dumps(s, sort_keys=True): s for s in out}
    return [uniq[k] for k in sorted(uniq)]


def prm(path, dim, scheme, strategy, cflmin, cflmax, level=LEVEL, extra=None):
    dom = {"position bottom left": ",".join(["0"] * dim), "position top right": ",".join(["1"] * dim),
           "boundary condition left": "dirichlet", "boundary condition right": "do nothing"}
    if dim > 1:
        dom.update({"boundary condition bottom": "dirichlet", "boundary condition top": "dirichlet"})
    s = {"C - Discretization": {"geometry": "rectangular domain", "mesh refinement": level, "mesh writeout": False},
         "C - Discretization/rectangular domain": dom,
         "E - InitialValues": {"configuration": "probe"},
         "H - TimeIntegrator": {"time stepping scheme": scheme, "cfl recovery strategy": strategy,
                                "cfl min": repr(cflmin[0] / cflmin[1]), "cfl max": repr(cflmax[0] / cflmax[1])}}
    for k, v in (extra or {}).items():
        s.setdefault(k, {}).update(v)
    runner.write_prm(path, s)


def execute(ctx, job):
    """job: dim, np, scheme, strategy, cflmin, cflmax, steps: [(tmax, script)]; returns traces."""
    exe = ctx.exes["probe_par" if job["scheme"] in IMEX else "probe"]
    d = ctx.dir()
    prm(os.path.join(d, "a.prm"), job["dim"], job["scheme"], job["strategy"], job["cflmin"], job["cflmax"])
    t0 = fem.tau_ref(job["dim"], 2 ** LEVEL)
    fails, intervals = [], []
    for k, (tmax, script) in enumerate(job["steps"], 1):
        intervals.append(-1 if tmax[0] == 0 else repr(tmax[0] / tmax[1] * t0))
        for sweep, ranks in script:
            if sweep < 0:
                fails.append(f"-1:{k}:{-sweep}")
            else:
                fails += [f"{r}:{k}:{sweep}" for r in ranks]
    env = {"PROBE_FAIL": ";".join(fails)} if fails else {}
    r = ctx.run(exe, ["step", job["dim"], "a.prm", "trace"] + intervals, d, np=job["np"], env=env,
                threads=job.get("threads", 1))
    if r is None:
        return []
    evs = runner.read_trace(os.path.join(d, "trace"), job["np"])
    return traces(ctx, job, evs, t0)


def traces(ctx, job, evs, t0):
    np, dim = job["np"], job["dim"]
    n = lambda x: NA if isinstance(x, str) or abs(x) / t0 > 700 else int(round(x / t0 * Q))
    cut = [[e for e in ev if e["e"] in ("begin", "prep", "bes", "step")] for ev in evs]
    steps = [[] for _ in range(np)]
    for r in range(np):
        for e in cut[r]:
            if e["e"] == "begin":
                steps[r].append([])
            steps[r][-1].append(e)
    out = []
    prev = [dict(restarts=0, warnings=0, prestarts=0, pwarnings=0) for _ in range(np)]
    for k, (tmax, script) in enumerate(job["steps"]):
        per = [steps[r][k] if k < len(steps[r]) else [] for r in range(np)]
        t_begin = per[0][0]["t"] if per[0] else 0.
        events = []
        m = max(len(p) for p in per)
        for i in range(1, m):
            es = [p[i] if i < len(p) else {"e": "missing"} for p in per]
            kinds = {e["e"] for e in es}
            if len(kinds) != 1:
                events.append({"e": "ranks disagree"})
                continue
            kind = kinds.pop()
            v = {"e": kind,
                 "y": [[-n(x) for x in e["U"][1 + K:1 + 2 * K]] for e in es],
                 "s": [[n(x) for x in e["U"][1:1 + K]] for e in es],
                 "p": [n(e["U"][1 + 2 * K]) for e in es]}
            if kind != "bes":
                v["cmin"] = [n(e["clk"][0] - t_begin) for e in es]
                v["cmax"] = [n(e["clk"][1] - t_begin) for e in es]
            if kind == "prep":
                v["tmin"] = [n(min(e["t"]) - t_begin) if e["t"] else NA for e in es]
                v["tmax"] = [n(max(e["t"]) - t_begin) if e["t"] else NA for e in es]
                v["poserr"] = [int(min(e["poserr"], 1.) * 1e9) for e in es]
            if kind == "bes":
                v["t"] = [n(e["t"] - t_begin) for e in es]
                v["tau"] = [n(e["tau"]) for e in es]
            if kind == "step":
                v["tau"] = [n(e["tau"]) for e in es]
                v["error"] = [e["error"] for e in es]
                v["cfl"] = [int(round(e["cfl"] * Q)) for e in es]
                for c in ("restarts", "warnings", "prestarts", "pwarnings"):
                    v[c] = [e.get(c, 0) - prev[r][c] for r, e in enumerate(es)]
                    for r, e in enumerate(es):
                        prev[r][c] = e.get(c, 0)
            events.append(v)
        out.append(dict(
            conf=dict(scheme=job["scheme"], strategy=job["strategy"], cflmax=job["cflmax"], cflmin=job["cflmin"],
                      tmax=tmax, ranks=list(range(np))),
            th=[[1, 1], list(fem.THETA[dim])],
            script=[[r, sw] for sw, rs in script if sw > 0 for r in rs],
            pscript=[-sw for sw, rs in script if sw < 0],
            events=events,
            _case=dict(dim=dim, np=np, scheme=job["scheme"], strategy=job["strategy"], cflmin=job["cflmin"],
                       cflmax=job["cflmax"], tmax=tmax, failures=script, step=k + 1)))
    return out


def judge(ctx, traces):
    """Validates all traces; returns the set of accepted theta per trace."""
    cases = [t.pop("_case") for t in traces]
    acc = ctx.validate("TraceIntegrator", traces, lambda i: cases[i], constants=dict(Q=Q, K=K))
    return cases, {i: [a["theta"] for a in v] for i, v in acc.items()}
