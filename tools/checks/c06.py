"""C06: invariant domain preservation."""
from . import scheme
from .scheme import base_case, record, fe_steps, physics, graph, random_cmd, OPEN
from .c05 import SCHEMES, model


def extreme(rng, eq, c):
    """Random states with strong jumps (logarithmic ranges)."""
    dim, o = c["dim"], c["opts"]
    seed = rng.randrange(10 ** 6)
    L = lambda lo, hi: f"L{lo:.3g}:{hi - lo:.3g}"
    if eq == "scalar":
        return f"random:{seed}:-2:4" + rng.choice(["", ":2", ":3"])
    strong = rng.choice([0.5, 1, 2, 4])
    vmax = rng.choice([0, 1, 10])
    v = f":{-vmax}:{2 * vmax}"
    r = f"random:{seed}:" + L(-strong / 2, strong / 2) + v * dim
    if eq in ("euler", "aeos"):
        r += ":" + L(-strong, strong)
    r += rng.choice(["", ":2", ":3"])
    return r


def explicit(rng, eq, **kw):
    c = base_case(rng, eq, "open", **kw)
    c["bc"] = ["do nothing" if b in ("dynamic",) else b for b in c["bc"]]
    o = c["opts"]
    if "flux" in o:       # exact derivatives only: the flux is Burgers'
        del o["flux"], o["poly"]
    o["relax"] = 0
    o["iterations"] = rng.choice([1, 2, 2, 2])
    o["evc"] = rng.choice([0, 1, 4])
    if eq == "aeos":
        o["extra"] = {"B - Equation": {"compute strict bounds": rng.choice(["true", "false"])}}
    c["mode"] = "explicit"
    c["commands"] = ["offline", extreme(rng, eq, c), "cfl:" + rng.choice(["0.2", "0.5", "0.9"])]
    if eq == "sw" and rng.random() < 0.5:
        c["commands"].append(f"poison:{rng.randrange(100)}:0.3:0:0")     # dry spots
        c["mode"] = "dry"
    for _ in range(3):
        c["commands"] += ["prep", "lambda", "fe"]
    return c


def schemes(rng, eq, **kw):
    c = base_case(rng, eq, "open", **kw)
    c["bc"] = ["do nothing" if b in ("dynamic",) else b for b in c["bc"]]
    o = c["opts"]
    if "flux" in o:
        del o["flux"], o["poly"]
    c["mode"] = "schemes"
    c["scheme"] = rng.choice(["ssprk 22", "ssprk 33", "erk 11", "erk 22", "erk 33"])
    c["cfl"] = rng.choice([(0.1, 0.1), (0.1, 0.2)])
    c["recovery"] = rng.choice(["none", "bang bang control"])
    o["relax"] = rng.choice([0, 1]) if eq != "scalar" else 0
    c["commands"] = ["offline", random_cmd(eq, c["dim"], rng.randrange(10 ** 6), amp=rng.choice([0.3, 0.6]), opts=o,
                                           plateau=rng.choice([None, 2])), "prep"] + ["step"] * 4
    return c


def run(ctx):
    rng = ctx.rng
    eqs = ["euler", "scalar", "sw", "aeos"]
    ctx.build(*[scheme.EXE[e] for e in eqs])
    model(ctx)
    n = 6 if ctx.quick else 40
    cases = [explicit(rng, e) for e in eqs for _ in range(n)]
    cases += [schemes(rng, e) for e in eqs for _ in range(n // 2)]

    def go(c):
        m = record(ctx, c)
        if m is None or scheme.differing(ctx, m, c):
            return None
        G = graph(m)
        P = physics(c["eq"], c["dim"], c["opts"])
        cg = c["ansatz"].startswith("cG")
        if c["mode"] in ("explicit", "dry"):
            ck = ["admissible"]
            if cg and c["mode"] == "explicit":
                ck.append("local")
            if c["eq"] == "scalar":
                ck = ["range" if cg else "global"]
            if c["eq"] == "euler":
                ck.append("entropy" if cg else "minentropy")
            steps = fe_steps(m, ck)
            for s in steps:
                s["tol"] = "1e-9"
        else:
            steps, old = [], None
            for e in m.events:
                if e["e"] == "prep":
                    old = e["U"]
                elif e["e"] == "step":
                    if e["error"] or e["warnings"]:
                        break
                    ck = ["admissible"] + (["global"] if c["eq"] == "scalar" else [])
                    steps.append(dict(kind="step", checks=ck, U0=old, U1=e["U"], error="", tol="1e-9"))
                    if c["eq"] != "scalar":    # boundary data enter the range: compare with the first state
                        old = e["U"]
        return dict(P=P, G=G, steps=steps)

    res = ctx.map(go, cases, jobs=4)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceScheme", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.extra["updates"] = sum(len(t["steps"]) for _, t in ok)
    ctx.assumptions += ["1D and 2D meshes, up to 3 processes", "rounding: relative 1e-9 (entropy 1e-7)",
                        "discontinuous elements: bounds over the whole mesh instead of the stencil"]
