"""C09: results do not depend on processes, threads and schedule."""
import math
from . import scheme
from .scheme import base_case, record, random_cmd
from .c05 import SCHEMES
from sim import q

VARIANTS = [(1, 4), (2, 1), (3, 2), (4, 1)]


def case(rng, eq, ansatz=None, refine=False, **kw):
    c = base_case(rng, eq, "open", dim=2, np=1, ansatz=ansatz or rng.choice(["cG Q1", "cG Q1", "dG Q0", "dG Q1", "cG Q2"]), **kw)
    c["scheme"] = rng.choice(SCHEMES)
    c["cfl"] = rng.choice([(0.1, 0.2), (0.45, 0.9)])
    c["recovery"] = rng.choice(["none", "bang bang control"])
    c["opts"]["iterations"] = rng.choice([1, 2, 2])
    c["variants"] = [VARIANTS[0]] + rng.sample(VARIANTS[1:], 2)
    c["commands"] = []
    if refine:  # which of two periodic copies is constrained may depend on the partition
        c["ansatz"] = "cG Q1"
        c["bc"] = ["do nothing" if b == "periodic" else b for b in c["bc"]]
        c["commands"].append(f"refine:{c['upper'][0] / 2}:{c['upper'][1] * rng.choice([0.5, 1])}")
    c["commands"].append("offline")
    if eq == "sw" and rng.random() < 0.5:
        c["commands"].append(f"bathymetry:{rng.randrange(1000)}:0:0.2")
        c["opts"]["manning"] = rng.choice([0, 0.02])
    c["commands"] += [random_cmd(eq, 2, rng.randrange(10 ** 6), amp=rng.choice([0.2, 0.5]), opts=c["opts"]),
                      "cfl:" + rng.choice(["0.1", "0.3"]), "prep", rng.choice(["stages:0.5", "stages:0.75:-2", "fe"]),
                      "step", "step", rng.choice(["prep", "step"])]
    return c


FIELDS = ("U", "pre", "pc", "alpha")
NUMS = ("tau", "t", "cfl", "restarts", "warnings")


def events(m):
    out = []
    for e in m.events:
        f = [[x if isinstance(x, list) else [x] for x in e[k]] for k in FIELDS if k in e]
        out.append(dict(e=e["e"], error=str(e.get("error", "")), num=[str(e[k]) for k in NUMS if k in e], f=f))
    return out


def good(ev):
    return all(q(x) is not None for e in ev for x in e["num"]) and \
        all(q(v) is not None for e in ev for f in e["f"] for n in f for v in n)


def size(f):
    r = []
    for a in range(len(f[0]) if f else 0):
        m = max([abs(float(q(n[a]))) for n in f] + [1e-300])
        r.append(f"1b{math.frexp(m)[1]}")
    return r


def run(ctx):
    rng = ctx.rng
    model(ctx)
    eqs = ["euler", "scalar", "sw", "aeos"]
    ctx.build(*([scheme.EXE[e] for e in eqs] + ["sim_euler_async"]))
    n = 2 if ctx.quick else 15
    cases = []
    for e in eqs:
        for _ in range(n):
            cases += [case(rng, e), case(rng, e, ansatz=rng.choice(["dG Q0", "dG Q1"])), case(rng, e, refine=True)]

    def go(c):
        runs, first = [], None
        for np, th in [(1, 1)] + c["variants"]:
            for exe in [None] + (["sim_euler_async"] if c["eq"] == "euler" and np * th > 1 else []):
                m = record(ctx, dict(c, np=np, threads=th), exe=exe)
                if m is None or scheme.differing(ctx, m, dict(c, np=np, threads=th)):
                    return None
                at = [[round(float(q(x)) * 2 ** 30) for x in row["x"]] for row in m.rows]
                first = first or at
                if at != first and "periodic" in c["bc"]:  # the other of two periodic copies is stored
                    continue
                ev = events(m)
                if not good(ev):
                    ctx.violation("a result is no number", dict(case=dict(c, np=np, threads=th)))
                    return None
                runs.append(dict(name=f"{np} processes, {th} threads{', asynchronous' if exe else ''}", ev=ev))
        return dict(runs=runs, tol="1e-5" if c["eq"] == "scalar" else "1e-9",  # numerical derivatives of the flux
                     size=[[size(f) for f in e["f"]] for e in runs[0]["ev"]])

    res = ctx.map(go, cases, jobs=3)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceParallel", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.extra["runs"] = sum(len(t["runs"]) for _, t in ok)


def model(ctx):
    inv = "Sequential Agreed Fresh".split()
    base = dict(STYLE="none", PART=(1, 4), ORDER="first", THREADS=2, ASYNC=True, NEXP=1, NINT=2, NOWN=3)
    variants = [dict(), dict(PART=(4, 7)), dict(PART=(4, 7), STYLE="extended"), dict(NINT=3), dict(ORDER="last", NEXP=0),
                dict(ASYNC=False, NEXP=0)]
    if not ctx.quick:
        variants += [dict(NINT=4, NOWN=4, PART=(3, 5)), dict(NINT=3, NOWN=4, PART=(4, 7), STYLE="extended")]
    for kw in variants:
        ctx.model_ok("MCParallel", str(kw), constants=dict(base, **kw), spec="Spec", invariants=inv,
                     properties=["Ends"] if kw.get("NOWN", 3) < 4 and kw.get("ORDER") != "last" else [])
    # what the specification must not admit
    for kw in (dict(PART=(4, 7), STYLE="inplace"), dict(NEXP=0)):
        r = ctx.model("MCParallel", str(kw), constants=dict(base, **kw), spec="Spec", invariants=inv)
        if r.ok:
            from check import NoAnswer
            raise NoAnswer("the model misses a known fault")
