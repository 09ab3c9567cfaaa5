"""C13: mesh adaptation: when, which cells, and what happens to the state."""
import glob, os, shutil, struct
import run as runner, sim, vtu
from . import loop, c01, c12

UNIT = 4096          # integer units per length of the domain
SCALE = 10 ** 6      # units of the values


def base(rng, kw):
    bc = kw["bc"]
    s = sim.sections("euler", 2, kw["level"], bc=bc, ansatz=kw["ansatz"], scheme=kw["scheme"],
                     subdiv=kw.get("subdiv"), upper=kw.get("upper"),
                     initial={"E - InitialValues": {"configuration": "function", "position": "0, 0"},
                              "E - InitialValues/function": {
                                  "density expression": kw["rho"], "pressure expression": kw["p"],
                                  "velocity x expression": kw["u"], "velocity y expression": kw["v"]}})
    s["A - TimeLoop"] = {"basename": "base", "timer granularity": "1e-100", "final time": repr(kw["tfinal"]),
                         "enforce final time": False, "enable output full": True, "enable output levelsets": False,
                         "enable checkpointing": kw.get("ckpt", False), "enable compute error": False,
                         "enable compute quantities": False, "terminal update interval": "0",
                         "enable mesh adaptivity": bool(kw["tps"])}
    s["H - TimeIntegrator"].update({"cfl min": "1e-10", "cfl max": "1e-10", "cfl recovery strategy": "none"})
    s["J - VTUOutput"] = {"use mpi io": kw.get("mpiio", False), "vtu output quantities": "rho, m_1, m_2, E"}
    if kw["tps"]:
        s["I - MeshAdaptor"] = {"adaptation strategy": kw["strategy"]}
        s["I - MeshAdaptor/time point selection strategies"] = {"adaptation timepoints": ", ".join(map(repr, kw["tps"]))}
        s["I - MeshAdaptor/adaptation strategies"] = {"random adaptation: mersenne_twister_seed": kw["seed"]}
        s["I - MeshAdaptor/marking strategies"] = {
            "fixed number: refinement fraction": repr(kw["ref"] / 100), "fixed number: coarsening fraction": repr(kw["crs"] / 100)}
    return s


def execute(ctx, kw, np=1):
    d = ctx.dir()
    runner.write_prm(os.path.join(d, "a.prm"), base(None, kw))
    if stale(kw):
        # a stale value of a constrained degree of freedom may even be a density of zero
        r = runner.run(ctx.exes["tl_euler"], [2, "a.prm"], d, np=np)
        if r.rc != 0 and "tau_max" in r.err:
            ctx.violation("the program fails after a mesh adaptation", dict(conf=kw, err=r.err[-2000:]), key="constrained-dofs")
            return None
        if r.rc == 0:
            return d
        shutil.rmtree(d, ignore_errors=True)
        d = ctx.dir()
        runner.write_prm(os.path.join(d, "a.prm"), base(None, kw))
    r = ctx.run(ctx.exes["tl_euler"], [2, "a.prm"], d, np=np)
    return d if r else None


def stale(kw):
    """Mesh adaptations of meshes with constrained degrees of freedom."""
    return (kw["ansatz"].startswith("cG") and
            ("periodic" in kw["bc"] and kw["tps"] or kw["strategy"] == "random adaptation" and len(kw["tps"]) > 1))


def step_size(ctx, kw):
    """Size of the first time step (the time of the checkpoint at the end of a run of one step)."""
    k = dict(kw, tps=[], tfinal=1e-90, ckpt=True)
    d = execute(ctx, k)
    if d is None:
        return None
    b = open(os.path.join(d, "base-checkpoint.metadata"), "rb").read()
    shutil.rmtree(d, ignore_errors=True)
    return struct.unpack("<d", b[-12:-4])[0]


FIELDS = ["rho", "m_1", "m_2", "E"]


def read_fields(d, tick, kw):
    """Cells and corner values of the output of one tick, all pieces."""
    f = os.path.join(d, f"base-solution_{tick:06d}")
    files = sorted(glob.glob(f + ".vtu")) + sorted(glob.glob(f + ".*.vtu"))
    lx = (kw.get("upper") or [1, 1])
    cells, v = [], []
    for name in files:
        r = vtu.read(name)
        if "points" not in r:
            continue
        P = r["points"]
        pts = [(P[3 * i], P[3 * i + 1]) for i in range(len(P) // 3)]
        for c in range(len(pts) // 4):
            q = pts[4 * c:4 * c + 4]
            xs = [round(x * UNIT) for x, _ in q]
            ys = [round(y * UNIT) for _, y in q]
            size = max(xs) - min(xs)
            # corners in lexicographic order
            order = sorted(range(4), key=lambda k: (ys[k], xs[k]))
            cells.append([min(xs), min(ys), size])
            v.append([[int(round(r[n][4 * c + k] * SCALE)) for n in FIELDS] for k in order])
    return dict(cells=cells, v=v, t=vtu.time_of(files[0])) if cells else None


def transfer(ctx, kw, np):
    dt = step_size(ctx, kw)
    if dt is None:
        return None
    tps = [x * dt for x in kw["tps"]]          # after a number of steps of the first mesh
    d = execute(ctx, dict(kw, tps=tps, tfinal=(max(kw["tps"]) + 2.2) * dt), np)
    if d is None:
        return None
    ev = []
    while True:
        e = read_fields(d, len(ev), kw)
        if e is None:
            break
        ev.append(e)
    shutil.rmtree(d, ignore_errors=True)
    times = sorted(set(tps) | {e["t"] for e in ev})
    for e in ev:
        e["t"] = times.index(e["t"])
    tr = [times.index(x) for x in tps]
    # keep the records next to an adaptation, or to where one is due
    keep = {0, len(ev) - 1}
    for i in range(1, len(ev)):
        if ev[i]["cells"] != ev[i - 1]["cells"]:
            keep |= {i - 1, i}
        if any(ev[i - 1]["t"] < x <= ev[i]["t"] for x in tr):
            keep |= {i, min(i + 1, len(ev) - 1)}
    hi = [UNIT * x for x in (kw.get("upper") or [1, 1])]
    return dict(events=[ev[i] for i in sorted(keep)], dg=int(kw["ansatz"].startswith("dG")), ncomp=4, tol=20, np=np,
                ref=kw["ref"], crs=kw["crs"], coarse=int(kw["level"] >= 1), tps=tr,
                strategy="global" if kw["strategy"] == "global refinement" else "random",
                dirichlet=int(kw["bc"][0] == "dirichlet"), perx=int(kw["bc"][0] == "periodic"), pery=int(kw["bc"][2] == "periodic"), lo=[0, 0], hi=hi,
                _case=dict(what="a mesh adaptation marks other cells than configured or does not represent the old state",
                           conf={x: y for x, y in kw.items()}, np=np))


def random_case(rng, k):
    strategy = rng.choice(["global refinement", "random adaptation", "random adaptation"])
    bc = rng.choice([["slip"] * 4, ["dirichlet", "do nothing", "slip", "slip"], ["periodic", "periodic", "slip", "slip"],
                     ["do nothing", "do nothing", "periodic", "periodic"], ["periodic"] * 4])
    kind = k % 5
    rho = [f"1.5+0.3*sin({rng.randint(1, 7)}*x+{rng.randint(1, 7)}*y)", f"1+0.5*x*y+0.25*(x>{rng.choice([0.3, 0.6])})",
           f"1.2+0.2*cos({rng.randint(2, 9)}*x)*y", "1.25", f"2+sin({rng.randint(10, 60)}*x*y)"][kind]
    tps = [rng.randint(0, 3) + rng.choice([0.3, 0.5, 0.7])]
    if rng.random() < 0.6:
        tps.append(tps[0] + rng.choice([0.1, 0.6, 1.37, 2.41, 3.13]))
    r, c = rng.choice([(30, 30), (30, 0), (10, 50), (50, 10), (0, 100), (0, 40), (100, 0), (25, 25)])
    ansatz = rng.choice(["cG Q1", "cG Q1", "dG Q1"])
    if strategy == "global refinement" or ansatz == "dG Q1":
        # the discontinuous ansatz requires conforming meshes
        strategy, r, c = "global refinement", 30, 30
    return dict(level=2 if len(tps) > 1 else rng.choice([2, 3]), bc=bc, ansatz=ansatz,
                scheme=rng.choice(["erk 11", "erk 33", "ssprk 33", "erk 22"]), rho=rho,
                p="1.0" if kind == 3 else "1+0.3*x+0.1*y", u="0.4" if kind == 3 else "0.4-0.3*y",
                v="0.2" if kind == 3 else "0.1+0.2*x*x", strategy=strategy, ref=r, crs=c,
                seed=rng.randint(1, 10 ** 6), mpiio=rng.random() < 0.3, tps=tps, tfinal=0.)


def schedule(ctx):
    """Runs of the probe equation with adaptation time points against the run schedule."""
    rng, jobs = ctx.rng, []
    n = 24 if ctx.quick else 240
    while len(jobs) < n:
        j = c01.random_job(rng, 2, 1)
        if c01.coincident(j):
            continue
        c = dict(j["conf"], eckpt=rng.random() < 0.3, equant=rng.random() < 0.6)
        mean = sum(j["table"]) / len(j["table"])
        c["eadapt"] = rng.random() < 0.95
        tps = [3600 * rng.randint(0, max(2, int(1.1 * c["tfinal"]) // 3600)) + rng.choice([113, 557, 1103, 1801])
               for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.3 and len(tps) < 3:
            tps.append(tps[0] + 1)          # two time points within one step
        if rng.random() < 0.2 and len(tps) < 3:
            tps.append(0)
        c["tps"] = tps
        jobs.append(dict(segs=[dict(conf=c, np=rng.choice([1, 1, 1, 2, 3]))], table=j["table"], interval=j["interval"],
                         level=2))
    tr = [t for t in ctx.map(lambda j: loop.chain(ctx, j), jobs) if t is not None]
    cases = [dict(t.pop("_case"), what="an adaptation does not happen when it should, or its consequences are wrong")
             for t in tr]
    acc = ctx.validate("TraceTimeLoop", tr, lambda i: cases[i], dict(LosePending=False))
    return sum(a[0]["adapts"] for a in acc.values())


def fresh_data(ctx):
    """After an adaptation everything is as if the program had been started on the new mesh: a process that
    resumes from a checkpoint written after an adaptation continues like the one that adapted."""
    tr, cases = [], []
    confs = [dict(adapt="0.03", gran=0.1), dict(adapt="0.03", gran=0.1, strategy="random adaptation", scheme="ssprk 33")]
    if not ctx.quick:
        confs += [dict(adapt="0.03, 0.24", gran=0.1, ansatz="dG Q1"), dict(adapt="0.03", gran=0.1, scheme="erk 54"),
                  dict(adapt="0.03", gran=0.1, strategy="random adaptation", level=4)]
    for kw in confs:
        secs = c12.base(ctx.rng, **{k: (repr(v) if k == "gran" else v) for k, v in kw.items()})
        case = c12.Case(ctx, secs, 3, 0.1)
        if len(case.content) < 3:
            continue
        d = ctx.dir()
        if case.run(d, 2) is None or case.run(d, 3, True) is None:
            continue
        tr.append(dict(events=[case.disk(d), dict(e="final", gen=3, gens=case.whole(case.disk(d)["main"]))]))
        cases.append(dict(what="after a mesh adaptation the run differs from one started on the adapted mesh", conf=kw))
        if kw.get("strategy") != "random adaptation":
            for x in [(1, 2, 2), (2, 3, 2)] if ctx.quick else [(1, 2, 2), (2, 3, 2), (3, 1, 2), (4, 2, 2)]:
                t = c12.across(ctx, case, *x)
                if t:
                    tr.append(t)
                    cases.append(dict(what="mesh adaptation depends on the number of processes", conf=kw, processes=x))
    ctx.validate("TraceCheckpoint", tr, lambda i: cases[i])
    return len(tr)


def run(ctx):
    ctx.build("tl_euler", "probe")
    ctx.model_ok("MCTransfer", "all sequences of adaptations", spec="Spec",
                 invariants=["Tiling", "Linear", "InRange", "BackAgain"], properties=["Steps"],
                 constants=dict(Size=8, MaxSteps=2 if ctx.quick else 4))
    ctx.extra["adaptations_scheduled"] = schedule(ctx)
    cs = [random_case(ctx.rng, k) for k in range(35 if ctx.quick else 300)]
    # fixed: hanging nodes and periodic constraints after every number of steps
    for m in (1, 2, 3, 4):
        cs.append(dict(random_case(ctx.rng, 4), bc=["periodic"] * 4, strategy="global refinement", ansatz="cG Q1",
                       ref=30, crs=30, tps=[m - 0.5]))
    nps = [ctx.rng.choice([1, 1, 2, 3]) for _ in cs]
    tr = [t for t in ctx.map(lambda x: transfer(ctx, *x), list(zip(cs, nps))) if t is not None]
    cases = [t.pop("_case") for t in tr]
    ctx.log(f"{len(tr)} transfers of the state recorded")
    ctx.validate("TraceTransfer", tr, lambda i: cases[i], dict(Stale=False), lenient=("constrained-dofs", dict(Stale=True)))
    ctx.extra["transfers"] = len(tr)
    ctx.extra["continuations"] = fresh_data(ctx)
