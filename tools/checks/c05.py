"""C05: discrete conservation of the hyperbolic update."""
from . import scheme
from .scheme import base_case, record, fe_steps, physics, graph, random_cmd

SCHEMES = ["ssprk 22", "ssprk 33", "erk 11", "erk 22", "erk 33", "erk 43", "erk 54"]


def opts(rng, eq, c):
    o = c["opts"]
    o["relax"] = rng.choice([0, 1, 8])
    o["iterations"] = rng.choice([0, 1, 2, 2])
    o["evc"] = rng.choice([0, 1, 4])


def start(rng, eq, c, amp=None):
    return random_cmd(eq, c["dim"], rng.randrange(10 ** 6), amp=amp or rng.choice([0.1, 0.5, 0.9]), opts=c["opts"],
                      plateau=rng.choice([None, None, 2]))


def balance(rng, eq, **kw):
    """Any boundary: the totals change by the discrete boundary flux."""
    c = base_case(rng, eq, "open", **kw)
    opts(rng, eq, c)
    c["mode"] = "balance"
    c["commands"] = ["offline", start(rng, eq, c), "cfl:" + rng.choice(["0.2", "0.9"])]
    for _ in range(3):
        c["commands"] += ["prep", rng.choice(["fe", "fe", "fe:1e-4"])]
    return c


def closed(rng, eq, kind, **kw):
    """Closed domains: nothing changes, for multi-stage updates, all schemes, source terms."""
    c = base_case(rng, eq, kind, **kw)
    opts(rng, eq, c)
    c["mode"] = kind
    c["scheme"] = rng.choice(SCHEMES)
    c["cfl"] = rng.choice([(0.1, 0.2), (0.45, 0.9)])
    c["recovery"] = rng.choice(["none", "bang bang control"])
    c["commands"] = ["offline"]
    if eq == "sw" and rng.random() < 0.7:
        c["mode"] = "closed"
        c["commands"].append(f"bathymetry:{rng.randrange(1000)}:0:{rng.choice([0.1, 0.5])}")
        c["opts"]["manning"] = rng.choice([0, 0.02])
    if eq == "aeos":
        e = rng.choice(["van der waals", None, None])
        if e:
            c["opts"]["eos"] = e
    c["commands"] += [start(rng, eq, c, amp=rng.choice([0.1, 0.5])), "cfl:" + rng.choice(["0.1", "0.3"]), "prep",
                      rng.choice(["stages:0.5", "stages:-1", "stages:0.75:-2", "stages:0.3:0.4"]),
                      "step", "step", "step"]
    return c


def run(ctx):
    rng = ctx.rng
    eqs = ["euler", "scalar", "sw", "aeos"]
    ctx.build(*[scheme.EXE[e] for e in eqs])
    model(ctx)
    n = 3 if ctx.quick else 30
    cases = [balance(rng, e) for e in eqs for _ in range(n)]
    cases += [closed(rng, e, k) for e in eqs for k in ("periodic", "closed") for _ in range(n)]
    cases += [closed(rng, e, "periodic", dim=2, np=4, ansatz=a) for e in ("euler", "sw")
              for a in ("cG Q1", "dG Q1")]
    cases += [closed(rng, e, k, ansatz=a) for e in eqs for k in ("periodic", "closed") for a in ("dG Q1", "dG Q0")]
    # cells with nodes of different mass: the mass matrix correction of the high-order update
    for e in ("euler", "sw", "aeos"):
        for a in ("dG Q1", "cG Q1"):
            for _ in range(50):
                c = closed(rng, e, "closed", ansatz=a, dim=2)
                if "periodic" not in c["bc"]:
                    break
            c["grading"] = "trapezoid"
            c["opts"]["iterations"] = 2
            # the graded wall bends: a node's normal is no edge's normal, so that reconstructed depths over
            # a bathymetry leave a (consistent) boundary flux; the depths themselves leave none
            if a.startswith("cG"):
                c["commands"] = [x for x in c["commands"] if not x.startswith("bathymetry")]
            cases.append(c)

    def go(c):
        m = record(ctx, c)
        if m is None or scheme.differing(ctx, m, c):
            return None
        G = graph(m)
        if G is None:
            ctx.violation("the sparsity pattern is not symmetric", dict(case=c))
            return None
        nc = scheme.NCOMP[c["eq"]](c["dim"])
        if c["mode"] == "balance":
            steps = fe_steps(m, ["balance"])
            for s in steps:
                s["comps"] = [1] if c["eq"] == "sw" else list(range(1, nc + 1))
                s["lam"] = []
        else:
            comps = list(range(1, nc + 1))
            if c["mode"] == "closed":
                comps = [1] if c["eq"] == "sw" else sorted({1, nc})
            steps, old = [], None
            for e in m.events:
                if e["e"] == "prep":
                    old = e["U"]
                elif e["e"] == "stages":
                    if c["mode"] == "periodic":
                        steps.append((e["old"], e["U"]))
                    old = e["U"]
                elif e["e"] == "step":
                    if e["error"]:
                        break
                    steps.append((old, e["U"]))
                    old = e["U"]
            steps = [dict(kind="step", checks=["closed"], U0=a, U1=b, closed=comps, error="", tol="1e-12",
                          scale="0") for a, b in steps]
        return dict(P=physics(c["eq"], c["dim"], c["opts"]), G=G, steps=steps)

    res = ctx.map(go, cases, jobs=4)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceScheme", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.extra["updates"] = sum(len(t["steps"]) for _, t in ok)
    ctx.assumptions += ["1D and 2D meshes, up to 4 processes and 4 threads"]


def model(ctx):
    al = {("1", "1", "1"), ("0", "0", "0"), ("1", "0", "1/2")}
    inv = "Symmetric Cfl AntiSymmetric Conserved InBounds MaxPrinciple Constant".split()
    base = dict(NODES=3, VALUES={-1, 0, 2}, ALPHAS=al, CFLS={"1", "1/2"}, STEPS=1, COEFFS={"0", "1"}, PASSES=2)
    runs = [("two limiter passes", {}), ("fractional limiter", dict(COEFFS={"0", "1/2", "1"}, PASSES=1))]
    if not ctx.quick:
        runs += [("two steps", dict(STEPS=2, PASSES=1)),
                 ("four nodes", dict(NODES=4, ALPHAS={("1", "1", "1", "1"), ("1", "0", "1/2", "0")}, VALUES={-1, 0, 1, 2})),
                 ("fractional, two passes", dict(COEFFS={"0", "1/2", "1"}))]
    for what, kw in runs:
        ctx.model_ok("MCScheme", what, constants=dict(base, **kw), spec="Spec", deadlock=False, invariants=inv)
