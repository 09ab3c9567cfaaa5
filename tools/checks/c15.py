"""C15: boundary conditions, pointwise and applied to whole states by the real preparation of a step."""
import random
import sim
from . import c18, scheme
from .pt import ex, exs

NAMES = {"do nothing": "do_nothing", "no slip": "no_slip", "dirichlet momentum": "dirichlet_momentum"}
ID = {v: k for k, v in sim.BC.items()}
FIELDS = {"euler": ["density", "velocity x", "velocity y", "pressure"], "aeos": ["density", "velocity x", "velocity y", "pressure"],
          "sw": ["water depth", "velocity x", "velocity y"], "scalar": [""]}


def fields(eq, dim):
    f = list(FIELDS[eq])
    if dim == 1 and "velocity y" in f:
        f.remove("velocity y")
    return f


def node_case(rng, eq):
    dim = rng.choice([1, 2, 2, 2])
    c = scheme.base_case(rng, eq, "open", dim=dim, small=True, ansatz=rng.choice(["cG Q1"] * 4 + ["dG Q1", "dG Q0", "cG Q2"]))
    if eq == "sw":
        c["bc"] = [rng.choice([b, b, "dirichlet momentum"]) if b != "periodic" else b for b in c["bc"]]
    if c["ansatz"] == "dG Q0":
        c["grading"] = False
    c["opts"].pop("flux", None), c["opts"].pop("poly", None)
    c["level"] = rng.choice([1, 2]) if dim == 2 else 2
    f = fields(eq, dim)
    rows = []
    for n in f:
        base = rng.choice([1.0, 2.0]) if "velocity" not in n and n else rng.choice([0.0, 0.25, -1.0, 2.0])
        rows.append([base] + [rng.choice([0.0, 0.0625, -0.0625]) for _ in range(dim)] + [rng.choice([0.125, 0.25])])
    v = "xyz"[:dim]
    expr = [" + ".join([repr(r[0])] + [f"({k!r})*{x}" for k, x in zip(r[1:], v + "t")]) for r in rows]
    data = {(n + " expression").strip(): e for n, e in zip(f, expr)}
    a = rng.choice([[1.0, 0.0], [0.6, 0.8], [1.0, 1.0], [0.0, 1.0], [-1.0, 0.5]])[:dim] if dim == 2 else [1.0]
    o = [rng.choice([0.0, 0.5, 1.0]) for _ in range(dim)]
    c["initial"] = {"E - InitialValues": {"configuration": "function", "direction": ", ".join(map(repr, a)), "position": ", ".join(map(repr, o))},
                    "E - InitialValues/function": data}
    c["data"] = dict(rows=[exs(r) for r in rows], origin=exs(o), direction=exs(a))
    c["commands"] = ["offline"]
    for k in range(3):
        if rng.random() < 0.3:
            c["commands"].append(f"initial:{rng.choice([0, 0.5])}")
        else:
            c["commands"].append(scheme.random_cmd(eq, dim, rng.randrange(10 ** 6), amp=rng.choice([0.3, 1.0])))
        c["commands"].append(f"prep:{rng.choice([0, 0.25, 1.5])}:1")
    return c


def node_traces(ctx, case):
    m = scheme.record(ctx, case)
    if m is None or scheme.differing(ctx, m, case):
        return []
    eq, dim = case["eq"], case["dim"]
    P = c18.physics(eq, random.Random(1), dim)[0]
    P.update(gamma="7/5", gravity="981/100", kpp=False, poly=[["0", "1/2"]] * dim if eq == "scalar" else [])
    P["L"] = dict(name="polytropic gas", gamma="7/5", pinf="0", b="0", q="0")
    h = [float(case["upper"][d]) / 2 ** case["level"] / (case.get("subdiv") or [1] * dim)[d] for d in range(dim)]
    reach = [ex(0.75 * x) if case["ansatz"] == "dG Q0" else "1e-10" for x in h]
    P["box"] = dict(ids=[NAMES.get(b, b) for b in case["bc"]], lower=exs(case["lower"]), upper=exs(case["upper"]), reach=reach)
    P["data"] = case["data"]
    entries = {}
    for b in m.bmap:
        entries.setdefault(b["g"], []).append(dict(id=ID[b["id"]], n=b["n"], x=b["x"]))
    out = []
    for e in m.events:
        if e["e"] != "prep":
            continue
        copies = {}
        for g, U, pc in e["ghost"]:
            copies.setdefault(g, []).append([U, pc])
        for i, row in enumerate(m.rows):
            b = entries.get(row["g"], [])
            nb = [e["U"][m.g2i[j]] for j in row["j"] if j in m.g2i] if eq == "aeos" else []
            out.append((P, dict(e="node", x=row["x"], t=e["t"], pre=e["pre"][i], U=e["U"][i], b=b, pc=e["pc"][i], nb=nb,
                                g=copies.get(row["g"], []), at=e["t"])))
    return out


def run(ctx):
    c18.validate(ctx, c18.bc_job, ["euler", "aeos", "sw", "scalar"], 40 if ctx.quick else 200, 6 if ctx.quick else 40)
    nodes(ctx)


def nodes(ctx):
    ctx.build(*scheme.EXE.values())
    n = 14 if ctx.quick else 60
    cases = [node_case(ctx.rng, eq) for eq in scheme.EXE for _ in range(n)]
    res = ctx.map(lambda c: node_traces(ctx, c), cases)
    traces, what = [], []
    for c, items in zip(cases, res):
        for k in range(0, len(items), 40):
            traces.append(dict(P=items[k][0], items=[i for _, i in items[k:k + 40]]))
            what.append(dict(case=c, first=k))
    ctx.validate("TraceAlgebra", traces, lambda i: what[i])
