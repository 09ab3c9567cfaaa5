"""C01: the run schedule of TimeLoop."""
from . import loop
from .loop import U

SCHEMES = ["erk 11", "ssprk 22", "ssprk 33", "erk 22", "erk 33", "erk 43", "erk 54"]


def random_job(rng, dim, np):
    """Random configuration.  Times avoid coincidences that rounding could decide either way,
    except for the important one: a final time that is enforced and is a multiple of the
    granularity."""
    eff = {"erk 22": 2, "erk 33": 3, "erk 43": 4, "erk 54": 5}
    scheme = rng.choice(SCHEMES)
    e = eff.get(scheme, 1)
    table = [rng.choice([3600, 7200, 14400, 28800, 57600]) for _ in range(rng.randint(1, 8))]
    off = lambda x: 3600 * x + rng.choice([371, 977, 1433, 2029, 3011])
    mean = sum(table) / len(table) * e
    nsteps = rng.randint(2, 14)
    gran = off(max(0, int(rng.choice([0.4, 0.8, 1.3, 2.7, 5.1]) * mean / 3600)))
    enforce = rng.random() < 0.6
    tfinal = off(max(1, int(nsteps * mean / 3600)))
    if enforce and rng.random() < 0.6:
        tfinal = gran * max(1, round(tfinal / gran))
    # keep the number of ticks away from accidental coincidences k*gran = multiple of 3600
    c = loop.base_conf(scheme=scheme, gran=gran, tfinal=tfinal, enforce=enforce,
                       mfull=rng.choice([1, 1, 2, 3]), mlev=rng.choice([1, 2, 3]), mckpt=rng.choice([1, 2, 3]),
                       mquant=rng.choice([1, 2, 3]), efull=rng.random() < 0.7, elev=rng.random() < 0.4,
                       eckpt=dim > 1 and rng.random() < 0.5, ecomp=rng.random() < 0.4,
                       equant=rng.random() < 0.5, qclear=rng.random() < 0.6, bang=rng.random() < 0.7)
    fails = sorted(rng.sample(range(1, 40), rng.choice([0, 0, 1, 3])))
    return dict(conf=c, dim=dim, np=np, level=4 if dim == 1 else 3, table=table,
                interval=off(int(rng.choice([0.7, 1.5, 3.2]) * mean / 3600)), fails=fails,
                failrank=rng.randrange(np), mpiio=rng.random() < 0.3)


def coincident(job):
    """Would a decision of the loop hang on rounding?  (simulated on the model's integers)"""
    c = job["conf"]
    e = {"erk 22": 2, "erk 33": 3, "erk 43": 4, "erk 54": 5}.get(c["scheme"], 1)
    for k in range(1, 400):
        x = k * c["gran"]
        if x > 3 * c["tfinal"]:
            break
        if x == c["tfinal"] and c["enforce"]:
            continue
        if min(x % 3600, -x % 3600) < 20:
            return True
    return False


def fixed(rng):
    b = loop.base_conf
    j = dict(dim=1, np=1, level=4, table=[14400], interval=10 ** 8, fails=[])
    out = [
        # several ticks pass within one step; outputs catch up one per cycle
        dict(j, conf=b(scheme="erk 33", gran=5003, tfinal=300001, enforce=False)),
        # nothing enabled
        dict(j, conf=b(scheme="ssprk 33", efull=False, gran=30001, tfinal=200003)),
        # final time zero: only the initial output
        dict(j, conf=b(scheme="erk 33", tfinal=0, gran=1000)),
        # everything, with analytic solution and checkpoints
        dict(j, dim=2, level=3, conf=b(scheme="erk 33", efull=True, elev=True, eckpt=True, ecomp=True, equant=True,
                                       gran=50011, tfinal=300001, mfull=2, mlev=3, mckpt=2, mquant=2)),
        dict(j, dim=2, level=3, np=2, conf=b(scheme="erk 33", elev=True, eckpt=True, equant=True, qclear=False,
                                             gran=50011, tfinal=300001, mckpt=3)),
    ]
    for g, n, s in [(20011, 7, "erk 33"), (30011, 10, "erk 54"), (14401, 13, "ssprk 33"), (9001, 11, "erk 43"),
                    (7001, 23, "erk 33"), (11003, 17, "erk 54"), (23003, 6, "erk 33"), (31013, 9, "erk 33")]:
        # an enforced final time that coincides with the last tick
        out.append(dict(j, conf=b(scheme=s, gran=g, tfinal=n * g)))
    t1, hits = loop.unit(1, 4), 0
    while hits < 6:
        # the same where the rounded product n * granularity exceeds the final time
        g, n = 3600 * rng.randint(2, 30) + rng.choice([371, 977, 1433]), rng.choice([3, 6, 7, 12, 19])
        if n * (g * t1) > (n * g) * t1:
            hits += 1
            out.append(dict(j, conf=b(scheme=rng.choice(SCHEMES), gran=g, tfinal=n * g)))
    return out


def run(ctx):
    ctx.build("probe")
    ctx.model_ok("MCTimeLoop", "all schedules", spec="Spec", invariants=["Ticks", "Prompt", "FinalTime", "AdaptOnce"],
                 properties=["Terminates"], constants=dict(Thorough=not ctx.quick))
    jobs = fixed(ctx.rng)
    n = 60 if ctx.quick else 600
    while len(jobs) < n:
        dim = ctx.rng.choice([1, 1, 2])
        j = random_job(ctx.rng, dim, 1 if dim == 1 or ctx.rng.random() < 0.7 else ctx.rng.choice([2, 3]))
        if not coincident(j):
            jobs.append(j)
    tr = [t for t in ctx.map(lambda j: loop.execute(ctx, j), jobs) if t is not None]
    cases = [t.pop("_case") for t in tr]
    ctx.log(f"{len(tr)} runs of the real time loop recorded")
    acc = ctx.validate("TraceTimeLoop", tr, lambda i: cases[i], dict(LosePending=False))
    ctx.extra["ticks"] = sum(a[0]["ticks"] for a in acc.values())
    ctx.extra["time_steps"] = sum(a[0]["steps"] for a in acc.values())
