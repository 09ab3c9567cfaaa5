"""C20: equilibria are preserved."""
import math
from . import scheme
from .scheme import base_case, record, fe_steps, physics, graph
from .c05 import SCHEMES

GEO = [("cylinder", 1), ("disk", 1), ("wall", 0)]
LARGE = [("annulus", 0), ("step", 0)]


def state(rng, eq, dim, moving):
    v = rng.choice([-2.0, 0.3, 1.0, 4.0]) if moving else 0.0
    h = 10 ** rng.uniform(-2, 2)
    if eq == "scalar":
        return [round(rng.uniform(-2, 2), 3)]
    if eq == "sw":
        return [round(h, 6), v]
    if eq == "aeos":      # the initial state is given by density, velocity and pressure
        return [round(10 ** rng.uniform(-1, 0.3), 6), v, round(10 ** rng.uniform(-1, 1), 6)]
    return [round(h, 6), v, round(10 ** rng.uniform(-3, 2), 6)]


def uniform(rng, eq, geometry=None, level=0):
    """Uniform state, compatible boundary conditions."""
    c = base_case(rng, eq, "open")
    dim = c["dim"]
    moving = rng.random() < 0.7 and geometry is None
    scalar = eq == "scalar"
    ends = ["do nothing", "dirichlet"] + ([] if scalar else ["dynamic"] if eq != "aeos" else [])
    if not moving and not scalar:
        ends += ["slip", "no slip"]
    sides = ["do nothing", "dirichlet"] + ([] if scalar else ["slip"])
    bc = []
    for d in range(dim):
        if rng.random() < 0.25 and not (dim == 1 and c["np"] > 1):
            bc += ["periodic"] * 2
        else:
            bc += [rng.choice(ends if d == 0 else sides) for _ in range(2)]
    c["bc"] = bc
    if dim == 1 and "periodic" in bc:
        c["np"] = 1
    c["initial"] = {"E - InitialValues": {"configuration": "uniform"}, "E - InitialValues/uniform": {
        "primitive state": ", ".join(map(str, state(rng, eq, dim, moving)))}}
    if not scalar:
        c["initial"]["E - InitialValues"]["direction"] = "1" if dim == 1 else "1, 0"
    if geometry:
        c.update(geometry=geometry, dim=2, level=level, bc=None, lower=None, upper=None, np=1, ansatz="cG Q1")
        c.pop("subdiv", None)
        c.pop("grading", None)
        c["initial"]["E - InitialValues"].pop("direction", None)
    c["scheme"] = rng.choice(SCHEMES)
    c["mode"] = "uniform"
    if eq == "aeos" and rng.random() < 0.5:
        c["opts"]["eos"] = rng.choice(["van der waals", "noble abel stiffened gas"])
    c["opts"]["relax"] = rng.choice([0, 1])
    c["commands"] = ["offline", "initial", "prep", "fe", "prep", "fe:1e-3", "step", "step"]
    return c


def lake(rng):
    c = base_case(rng, "sw", "open")
    c["bc"] = [rng.choice(["slip", "no slip", "do nothing"]) if b != "periodic" else b for b in c["bc"]]
    c["scheme"] = rng.choice(SCHEMES)
    c["mode"] = "lake"
    wet = rng.random() < 0.5
    amp = rng.choice([0.1, 1, 5])
    level = amp * (1.05 + rng.random()) if wet else amp * rng.uniform(0.1, 0.9)
    c["wet"] = wet
    c["opts"]["manning"] = rng.choice([0, 0, 0.05, 1])
    c["commands"] = ["offline", f"bathymetry:{rng.randrange(10 ** 6)}:0:{amp}" + rng.choice(["", "", ":2"]),
                     f"lake:{level:.6g}", "prep", "fe", "prep", "fe", "step", "step"]
    return c


def friction(rng):
    c = base_case(rng, "sw", "periodic")
    c["mode"] = "friction"
    c["opts"]["manning"] = rng.choice([0.01, 0.1, 1, 10])
    c["scheme"] = rng.choice(["erk 11", "ssprk 22", "ssprk 33"])
    h = 10 ** rng.uniform(-3, 1)
    v = [rng.uniform(-5, 5) for _ in range(c["dim"])]
    c["commands"] = ["offline", f"random:1:{h:.5g}:0" + "".join(f":{x:.5g}:0" for x in v), "prep", "fe", "prep", "fe",
                     "prep", "fe"]
    return c


def run(ctx):
    rng = ctx.rng
    eqs = ["euler", "scalar", "sw", "aeos"]
    ctx.build(*[scheme.EXE[e] for e in eqs])
    n = 5 if ctx.quick else 40
    cases = [uniform(rng, e) for e in eqs for _ in range(n)]
    for e in ("euler", "sw", "aeos"):
        cases += [uniform(rng, e, g, lv) for g, lv in GEO]
    if not ctx.quick:
        cases += [uniform(rng, e, g, lv) for e in ("euler", "sw", "aeos") for g, lv in LARGE]
    cases += [lake(rng) for _ in range(3 * n)] + [friction(rng) for _ in range(n)]

    def go(c):
        m = record(ctx, c)
        if m is None or scheme.differing(ctx, m, c):
            return None
        P = physics(c["eq"], c["dim"], c["opts"])
        steps = []
        ck = "friction" if c["mode"] == "friction" else "fixed"
        old = None
        for e in m.events:
            if e["e"] == "prep":
                if old is None:
                    sz = size(c["eq"], e["U"])
                    if ck == "fixed":      # boundary conditions must not disturb the equilibrium either
                        steps.append(dict(kind="prep", checks=[ck], U0=e["pre"], U1=e["U"], error=""))
                    old = e["U"]
                elif ck == "friction":
                    old = e["U"]
            elif e["e"] in ("fe", "step"):
                if e["e"] == "step" and c["mode"] == "friction":
                    continue
                steps.append(dict(kind="step", checks=[ck], U0=old, U1=e["U"], error=e["error"]))
                if ck == "friction":
                    old = e["U"]
        for s in steps:
            s.update(tol="1e-10", size=sz)
        return dict(P=P, G=dict(n=m.n), steps=steps)

    res = ctx.map(go, cases, jobs=4)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceScheme", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.extra["updates"] = sum(len(t["steps"]) for _, t in ok)
    ctx.assumptions += ["rounding: 1e-10 relative to the conserved quantities and the flux of the sound wave"]


def size(eq, U):
    """Scale of every component: the value itself, or density times (velocity + sound speed)."""
    f = [[abs(float(scheme.sim.q(x))) for x in u] for u in U]
    mx = [max(u[a] for u in f) for a in range(len(f[0]))]
    if eq == "sw":
        w = mx[0] * math.sqrt(9.81 * mx[0])
        mx = [mx[0]] + [max(x, w) for x in mx[1:]]
    elif eq in ("euler", "aeos"):
        w = math.sqrt(mx[0] * mx[-1])
        mx = [mx[0]] + [max(x, w) for x in mx[1:-1]] + [mx[-1]]
    return [f"1b{math.frexp(max(x, 1e-300))[1]}" for x in mx]
