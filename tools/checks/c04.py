"""C04: the CFL condition of the graph viscosity method."""
from . import scheme
from .scheme import base_case, record, fe_steps, physics, graph, random_cmd


def case(rng, eq, **kw):
    c = base_case(rng, eq, "open", **kw)
    o = c["opts"]
    o["relax"] = rng.choice([0, 1, 8])
    cfl = rng.choice(["0.1", "0.45", "0.9", "1.0"])
    tau = "%.3e" % 10 ** rng.uniform(-7, -4)
    cap = "%.3e" % 10 ** rng.uniform(-6, 0)
    seed = rng.randrange(10 ** 6)
    c["kindlist"] = ["cfl", "given", "capped"]
    c["given"] = [None, tau, cap]
    c["commands"] = ["offline", random_cmd(eq, c["dim"], seed, amp=rng.choice([0.05, 0.5, 1]), opts=o,
                                           plateau=rng.choice([None, 2, 3])), "cfl:" + cfl,
                     "prep", "lambda", "fe", "prep", "lambda", "fe:" + tau, "prep", "lambda", "fe:0:" + cap]
    return c


def low(rng, eq):
    """Without limiter passes the update is the low-order one: every edge's viscosity shows."""
    c = case(rng, eq)
    c["opts"]["iterations"] = 0
    c["kindlist"] = ["low"] * 3
    return c


def invalid(rng, eq):
    c = base_case(rng, eq, "open")
    c["kindlist"], c["given"] = ["rejected"], [None]
    comp = rng.choice([0, scheme.NCOMP[eq](c["dim"]) - 1])
    c["commands"] = ["offline", random_cmd(eq, c["dim"], rng.randrange(10 ** 6)),
                     f"poison:{rng.randrange(10 ** 6)}:{rng.choice([0.3, 1])}:nan:{comp}", "prep", "fe"]
    # boundary conditions must not overwrite the state
    c["bc"] = ["periodic" if b == "periodic" else "do nothing" for b in c["bc"]]
    return c


def run(ctx):
    rng = ctx.rng
    eqs = ["euler", "scalar", "sw", "aeos"]
    ctx.build(*[scheme.EXE[e] for e in eqs])
    n = 5 if ctx.quick else 40
    cases = [case(rng, e, maxnp=3 if ctx.quick else 4) for e in eqs for _ in range(n)]
    cases += [case(rng, e, dim=2, np=4, ansatz="cG Q1") for e in eqs]
    cases += [low(rng, e) for e in eqs for _ in range(3 if ctx.quick else 25)]
    cases += [invalid(rng, e) for e in eqs for _ in range(2 if ctx.quick else 8)]

    def go(c):
        m = record(ctx, c)
        if m is None or scheme.differing(ctx, m, c):
            return None
        steps = fe_steps(m, [])
        if len(steps) != len(c["kindlist"]):
            ctx.violation("an update is missing from the record", dict(case=c))
            return None
        for s, k, g in zip(steps, c["kindlist"], c["given"]):
            s["checks"] = [k]
            if k == "rejected" and not any("nan" in u for u in s["U0"]):
                return None      # no entry was hit
            s["given"] = repr(float(g)) if g else "0"
            if g:
                s["given"] = exact(float(g))
            if k == "given" and physics(c["eq"], c["dim"], c["opts"])["eq"] in ("euler", "scalar") \
                    and not c["ansatz"].startswith("dG"):
                s["checks"].append("balance")
        G = graph(m)
        if G is None:
            ctx.violation("the sparsity pattern is not symmetric", dict(case=c))
            return None
        return dict(P=physics(c["eq"], c["dim"], c["opts"]), G=G, steps=steps)

    res = ctx.map(go, cases, jobs=4)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceScheme", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.assumptions += ["wave speeds are recomputed with the solver's own Riemann solver (decided by C08)",
                        "1D and 2D meshes, up to 4 processes and 4 threads; 1D periodic runs on one process"]


def exact(x):
    m, e = float(x).hex(), 0
    n, d = x.as_integer_ratio()
    return f"{n}/{d}"
