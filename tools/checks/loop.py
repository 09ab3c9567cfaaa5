"""Running the real TimeLoop with the probe equation and turning the record into a trace."""
import os, re, json, random
import fem, run as runner

U = 14400          # observation units per sub step with lambda = 1
NA = 999999999
NAMES = [
    (re.compile(r"base-solution-levelsets_(\d{6})\.(pvtu|vtu)$"), "solution-levelsets"),
    (re.compile(r"base-analytic_solution-levelsets_(\d{6})\.(pvtu|vtu)$"), "analytic-levelsets"),
    (re.compile(r"base-solution_(\d{6})\.(pvtu|vtu)$"), "solution"),
    (re.compile(r"base-analytic_solution_(\d{6})\.(pvtu|vtu)$"), "analytic"),
    (re.compile(r"base-m1-R(\d{4})-instantaneous\.dat$"), "inst"),
    (re.compile(r"base-m1-R(\d{4})-points\.dat$"), "points"),
    (re.compile(r"base-m2-R(\d{4})-time_averaged\.dat$"), "tavg"),
    (re.compile(r"base-m3-R(\d{4})-space_averaged_time_series\.dat$"), "series"),
    (re.compile(r"base-b1-R(\d{4})-space_averaged_time_series\.dat$"), "series2"),
]
IGNORE = re.compile(r"(\.prm|\.log|^trace\..*|^base-m2-R\d{4}-points\.dat|_\d{6}\.\d+\.vtu|\.mpirun.*|.*\.msh)$")
CK = {"base-checkpoint.mesh", "base-checkpoint.mesh_fixed.data", "base-checkpoint.mesh.info",
      "base-checkpoint.metadata"}


def abstract(names):
    out, ck, bk = set(), set(), set()
    for n in names:
        if IGNORE.search(n):
            continue
        if n in CK:
            ck.add(n)
            continue
        if n.endswith("~") and n[:-1] in CK:
            bk.add(n[:-1])
            continue
        for rx, tag in NAMES:
            m = rx.match(n)
            if m:
                out.add((tag, int(m.group(1))))
                break
        else:
            out.add(("unknown:" + n, 0))
    if ck:
        out.add(("ckpt", 0) if ck == CK else ("incomplete checkpoint", len(ck)))
    if bk:
        out.add(("ckpt~", 0) if bk == CK else ("incomplete backup", len(bk)))
    return sorted([list(x) for x in out])


def sections(c, dim, level, t1, mpiio=False):
    """c: configuration of the model; t1: time of one observation unit."""
    f = lambda x: repr(x * t1)
    dom = {"position bottom left": ",".join(["0"] * dim), "position top right": ",".join(["1"] * dim),
           "boundary condition left": "dirichlet", "boundary condition right": "do nothing"}
    if dim > 1:
        dom.update({"boundary condition bottom": "dirichlet", "boundary condition top": "dirichlet"})
    a = {"basename": "base", "timer granularity": f(c["gran"]), "final time": f(c["tfinal"]),
         "enforce final time": c["enforce"],
         "enable output full": c["efull"], "enable output levelsets": c["elev"],
         "enable checkpointing": c["eckpt"], "enable compute error": c["ecomp"],
         "enable compute quantities": c["equant"], "enable mesh adaptivity": c["eadapt"],
         "timer output full multiplier": c["mfull"], "timer output levelsets multiplier": c["mlev"],
         "timer checkpoint multiplier": c["mckpt"], "timer compute quantities multiplier": c["mquant"],
         "terminal update interval": "1000"}
    s = {"A - TimeLoop": a,
         "C - Discretization": {"geometry": "rectangular domain", "mesh refinement": level, "mesh writeout": False},
         "C - Discretization/rectangular domain": dom,
         "E - InitialValues": {"configuration": "probe"},
         "H - TimeIntegrator": {"time stepping scheme": c["scheme"],
                                "cfl recovery strategy": "bang bang control" if c["bang"] else "none",
                                "cfl min": "0.25", "cfl max": "0.5"},
         "J - VTUOutput": {"manifolds": "x - 0.5" if c["elev"] else "", "use mpi io": mpiio},
         "K - Quantities": {"interior manifolds": "m1 : x - 0.5 : instantaneous, m2 : x - 0.5 : time_averaged, "
                                                  "m3 : x - 0.5 : space_averaged",
                            "boundary manifolds": "b1 : x : space_averaged",
                            "clear statistics on writeout": c["qclear"]}}
    if c["eadapt"]:
        s["I - MeshAdaptor/time point selection strategies"] = {
            "adaptation timepoints": ", ".join(f(x) for x in sorted(c["tps"]))}
        s["I - MeshAdaptor"] = {"adaptation strategy": "global refinement"}
    return s


def unit(dim, level):
    """Time of one observation unit (cfl max = 0.5, lambda = 1: sub step = U units)."""
    return 0.5 * fem.tau_ref(dim, 2 ** level) / U


def events(evs, t1, log):
    """Joins the records of the ranks."""
    n = lambda x: NA if isinstance(x, str) or abs(x) > 1e8 * t1 else int(round(x / t1))
    np = len(evs)
    pre = [[e for e in ev if e["e"] in ("prep", "end", "exception")] for ev in evs]
    files = []
    for e in evs[0]:
        if e["e"] == "files":
            files += e["names"]
        elif e["e"] in ("prep", "end"):
            e["files"] = abstract(files)
            files = []
    out = []
    for i in range(max(len(p) for p in pre)):
        es = [p[i] if i < len(p) else {"e": "missing"} for p in pre]
        kinds = {e["e"] for e in es}
        if len(kinds) != 1:
            out.append({"e": "ranks disagree"})
            continue
        kind = kinds.pop()
        if kind == "prep":
            out.append({"e": "prep", "files": es[0]["files"],
                        "tmin": [n(min(e["t"])) if e["t"] else NA for e in es],
                        "tmax": [n(max(e["t"])) if e["t"] else NA for e in es],
                        "cmin": [n(e["clk"][0]) for e in es], "cmax": [n(e["clk"][1]) for e in es]})
        elif kind == "end":
            m = re.findall(r"FINAL  \(cycle (\d+)\).*?at time t = ([0-9.]+)", log, re.S)
            out.append({"e": "end", "files": es[0]["files"], "cycles": int(m[-1][0]) if m else -2,
                        "t": n(float(m[-1][1])) if m and 1e-8 < 2 * t1 else NA})
        else:
            out.append({"e": kind})
    return out


def execute(ctx, job, d=None, tag="a"):
    """job: conf, dim, np, level, table (sub steps, in units of U/4), interval, fails, threads, mpiio"""
    exe = ctx.exes["probe"]
    d = d or ctx.dir()
    c = job["conf"]
    t1 = unit(job["dim"], job["level"])
    s = sections(c, job["dim"], job["level"], t1, job.get("mpiio", False))
    for k, v in job.get("extra", {}).items():
        s.setdefault(k, {}).update(v)
    runner.write_prm(os.path.join(d, tag + ".prm"), s)
    lam = [repr(U / x) for x in job["table"]]
    env = {"PROBE_LAMBDA": ";".join(lam), "PROBE_LAMBDA_INTERVAL": repr(job["interval"] * t1), "PROBE_POLL": "1"}
    if job["fails"]:
        env["PROBE_FAIL"] = ";".join(f"{r}:0:{s}" for s in job["fails"] for r in ([job.get("failrank", 0)]))
    env.update(job.get("env", {}))
    r = ctx.run(exe, ["loop", job["dim"], tag + ".prm", "trace"], d, np=job["np"], env=env,
                threads=job.get("threads", 1), clean=not job.get("keepdir"))
    if r is None:
        return None
    evs = runner.read_trace(os.path.join(d, "trace"), job["np"])
    log = ""
    p = os.path.join(d, "base.log")
    if os.path.exists(p):
        log = open(p, errors="replace").read()
    return dict(conf=c, table=job["table"], interval=job["interval"], fails=job["fails"],
                events=events(evs, t1, log),
                _case={k: v for k, v in job.items() if k not in ("env",)})


def base_conf(**kw):
    c = dict(scheme="erk 33", t0=0, tick0=0, gran=20000, tfinal=200000, enforce=True, mfull=1, mlev=1, mckpt=1,
             mquant=1, efull=True, elev=False, eckpt=False, ecomp=False, equant=False, qclear=True, eadapt=False,
             tps=[], bang=True, hasckpt=False, off=0, nref=0)
    c.update(kw)
    return c


def chain(ctx, job):
    """Several processes one after another on the same directory: job["segs"] = list of
    dict(conf, np, exit = number of the sweep at which the process is killed, zero = resume at time zero);
    the second and later ones resume."""
    d = ctx.dir()
    out, prev = None, False
    for n, s in enumerate(job["segs"]):
        c = s["conf"]
        t1 = unit(2, job["level"])
        tag = f"s{n}"
        secs = sections(c, 2, job["level"], t1)
        secs["A - TimeLoop"].update({"resume": n > 0, "resume at time zero": bool(s.get("zero"))})
        runner.write_prm(os.path.join(d, tag + ".prm"), secs)
        env = {"PROBE_LAMBDA": ";".join(repr(U / x) for x in job["table"]),
               "PROBE_LAMBDA_INTERVAL": repr(job["interval"] * t1), "PROBE_POLL": "1"}
        for f in os.listdir(d):
            if f.startswith("trace.") or f == "base.log":
                os.unlink(os.path.join(d, f))
        if s.get("exit"):
            env["PROBE_EXIT"] = str(s["exit"])
            r = runner.run(ctx.exes["probe"], ["loop", 2, tag + ".prm", "trace"], d, np=s["np"], env=env)
        else:
            r = ctx.run(ctx.exes["probe"], ["loop", 2, tag + ".prm", "trace"], d, np=s["np"], env=env, clean=False)
            if r is None:
                return None
        evs = runner.read_trace(os.path.join(d, "trace"), s["np"])
        ended = all(e and e[-1]["e"] == "end" for e in evs)
        if not ended and s.get("exit"):
            # the sweep at which the process died is not part of the record
            m = min(sum(x["e"] == "prep" for x in e) for e in evs) - 1
            if m < 0:
                return None
            evs = [cut(e, m) for e in evs]
        log = ""
        p = os.path.join(d, "base.log")
        if os.path.exists(p):
            log = open(p, errors="replace").read()
        e = events(evs, t1, log)
        if n == 0:
            out = e
        else:
            out += [dict(e="resume", conf=c, zero=int(bool(s.get("zero"))), ended=int(prev))] + e
        prev = ended
        if not os.path.exists(os.path.join(d, "base-checkpoint.metadata")):
            break
    return dict(conf=job["segs"][0]["conf"], table=job["table"], interval=job["interval"], fails=[], events=out,
                _case=dict(job, what="processes that are ended and resumed do not continue like one process"))


def cut(ev, m):
    """The first m sweeps."""
    out, k = [], 0
    for e in ev:
        if e["e"] == "prep":
            if k == m:
                break
            k += 1
        out.append(e)
    while out and out[-1]["e"] != "prep":
        out.pop()
    return out
