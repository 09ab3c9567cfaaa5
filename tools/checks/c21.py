"""C21: visualization output.  States of pseudo-random nodal values are written by the real classes; the files are read back and
compared with the specification (Vtu.tla): selected cells, fields and values, normalized derived fields and their bounds."""
import json, os, re
from fractions import Fraction
import run as runner
import vtu
from .pt import ex

EXE = {"euler": "vt_euler", "sw": "vt_sw"}


def names(eq, dim):
    mom = lambda a: [a] if dim == 1 else [f"{a}_{d + 1}" for d in range(dim)]
    if eq == "euler":
        U, W, P, I = ["rho"] + mom("m") + ["E"], ["rho"] + mom("v") + ["p"], ["s", "eta_h"], []
    else:
        U, W, P, I = ["h"] + mom("m"), ["h"] + mom("v"), ["eta_m", "h_star"], ["bathymetry"]
    f = [dict(name=n, kind="U", c=k + 1) for k, n in enumerate(U)]
    f += [dict(name=n, kind="prim", c=k + 1) for k, n in enumerate(W) if n not in U]
    f += [dict(name=n, kind="P", c=k + 1) for k, n in enumerate(P)] + [dict(name=n, kind="I", c=k + 1) for k, n in enumerate(I)]
    return f + [dict(name="alpha", kind="a", c=1)]


def levelset(rng, dim):
    """an expression and its exact value at a point"""
    xs = "xyz"[:dim]
    kind = rng.choice(["plane", "plane", "oblique", "sphere", "none"])
    if kind == "plane":
        d, a = rng.randrange(dim), rng.choice(["0.25", "0.5", "0.375", "1.0", "0"])
        return f"{xs[d]}-{a}", lambda x: x[d] - Fraction(a)
    if kind == "oblique":
        c = [rng.choice([-1, 1, 2, Fraction(1, 2)]) for _ in xs]
        a = rng.choice([Fraction(1, 2), Fraction(5, 8), 1])
        return "+".join(f"({float(k)})*{v}" for k, v in zip(c, xs)) + f"-{float(a)}", lambda x: sum(k * v for k, v in zip(c, x)) - a
    if kind == "sphere":
        r = rng.choice([Fraction(1, 4), Fraction(1, 2), Fraction(9, 64)])
        return "+".join(f"{v}*{v}" for v in xs) + f"-{float(r)}", lambda x: sum(v * v for v in x) - r
    return f"{xs[0]}-7", lambda x: x[0] - 7


def case(rng, k, quick):
    eq = rng.choice(["euler", "sw"])
    dim = rng.choice([1, 2, 2, 2, 3] if eq == "euler" else [1, 2, 2])
    np = rng.choice([1, 2, 3]) if dim > 1 else rng.choice([1, 2])
    ansatz = rng.choice(["cG Q1", "cG Q1", "cG Q2", "dG Q1", "dG Q2"] if dim < 3 else ["cG Q1", "dG Q1"])
    ref = {1: 3, 2: 2 if "2" in ansatz else rng.choice([2, 3]), 3: 1}[dim]
    fields = names(eq, dim)
    chosen = rng.sample(fields, rng.randint(1, len(fields)))
    dofs = [f for f in fields if f["kind"] in ("U", "prim")]
    der = [dict(op="schlieren", kind=f["kind"], c=f["c"], name="schlieren_" + f["name"]) for f in rng.sample(dofs, rng.randint(0, 2))]
    if dim > 1:
        der += [dict(op="vorticity", kind=f["kind"], c=f["c"], name="vorticity_" + f["name"])
                for f in dofs if f["c"] == 2 and rng.random() < .5]
    levels = [levelset(rng, dim) for _ in range(rng.choice([1, 1, 2]))]
    periodic = np == 1 and dim > 1 and rng.random() < .2
    cmds, n = [], 0
    for _ in range(rng.choice([1, 2, 3])):
        if "cG" in ansatz and dim > 1 and not periodic and rng.random() < .4:
            cmds.append(dict(e="refine", x=[rng.choice([.3, .55, .8, 2.]) for _ in range(dim)]))
        cmds.append(dict(e="out", name=f"o{n}", t=rng.choice([0, .5, 2.25]), cycle=rng.choice([0, 7, 123456]), full=rng.choice([1, 1, 0]), levels=1, s=rng.randrange(1000),
                         a=rng.choice([1., .5, 1., 2.**-6, 0.])))
        n += 1
    return dict(eq=eq, dim=dim, np=np, ansatz=ansatz, ref=ref, fields=chosen, der=der, levels=levels, periodic=periodic, cmds=cmds, mpi_io=rng.random() < .5,
                recompute=rng.random() < .5, beta=rng.choice([10., 5., 1.]))


def read(ctx, c, d, name, cycle):
    f = os.path.join(d, f"{name}_{cycle:06d}")
    if c["mpi_io"]:
        files = [f + ".vtu"]
    else:
        files = [os.path.join(d, s) for s in re.findall(r'Piece Source="([^"]*)"', open(f + ".pvtu").read())]
    out, order = {}, None
    for f in files:
        v = vtu.read(f)
        t = open(f, "rb").read().decode("latin1")
        o = re.findall(r'<DataArray type="Float\d+" Name="([^"]*)"', t)
        o = list(dict.fromkeys(x for x in o if x not in ("TIME", "CYCLE")))
        order = order or o
        for k, x in v.items():
            out.setdefault(k, []).extend(x)
    return out, order or []


def execute(ctx, c):
    d = ctx.dir()
    secs = {"B - Equation": {"gamma": "1.5"} if c["eq"] == "euler" else {},
            "C - Discretization": {"finite element ansatz": c["ansatz"], "geometry": "rectangular domain", "mesh refinement": c["ref"]},
            "C - Discretization/rectangular domain": {"position bottom left": ", ".join(["0"] * c["dim"]), "position top right": ", ".join(["1"] * c["dim"]),
                **({f"boundary condition {s}": "periodic" for s in (["left", "right", "bottom", "top"] + ["back", "front"] * (c["dim"] == 3))} if c["periodic"] else {})},
            "J - VTUOutput": {"use mpi io": c["mpi_io"], "manifolds": "; ".join(e for e, _ in c["levels"]).replace(";", ","),
                              "vtu output quantities": ", ".join(f["name"] for f in c["fields"])},
            "L - Postprocessor": {"schlieren beta": c["beta"], "schlieren recompute bounds": c["recompute"],
                                  "schlieren quantities": ", ".join(f["name"][10:] for f in c["der"] if f["op"] == "schlieren"),
                                  **({"vorticity quantities": ", ".join(f["name"][10:] for f in c["der"] if f["op"] == "vorticity")} if c["dim"] > 1 else {})}}
    runner.write_prm(os.path.join(d, "a.prm"), secs)
    with open(os.path.join(d, "in"), "w") as f:
        for o in c["cmds"]:
            f.write(" ".join(map(str, [o["e"]] + (o["x"] if o["e"] == "refine" else [o["name"], o["t"], o["cycle"], o["full"], o["levels"], o["s"], o["a"]]))) + "\n")
    r = ctx.run(ctx.exes[EXE[c["eq"]]], [c["dim"], "a.prm", "in", "rec"], d, np=c["np"])
    if r is None:
        return None
    recs = [[json.loads(l) for l in open(os.path.join(d, f"rec.{p}"))] for p in range(c["np"])]
    ev, k, reset = [], 0, True
    for o in c["cmds"]:
        if o["e"] == "refine":
            reset = True
            continue
        nodes = sorted((n for r in recs for n in r[k]["nodes"]), key=lambda n: n["g"])
        cells = [x["v"] for r in recs for x in r[k]["cells"]]
        pos = [[[float(Fraction(value(t))) for t in v[1]] for v in x] for x in cells]
        centre = {tuple(round(sum(v[e] for v in x) / len(x) * 1e5) for e in range(c["dim"])): q for q, x in enumerate(pos)}
        out = []
        for levels in (False, True):
            if not (o["levels"] if levels else o["full"]):
                continue
            data, order = read(ctx, c, d, o["name"] + ("-levelsets" if levels else ""), o["cycle"])
            pts, n = data.get("points", []), 2 ** c["dim"]
            patches = []
            for b in range(0, len(pts) // 3, n):
                P = [pts[3 * q:3 * q + c["dim"]] for q in range(b, b + n)]
                q = centre.get(tuple(round(sum(v[e] for v in P) / n * 1e5) for e in range(c["dim"])))
                at = []
                for v in P:
                    near = [x[0] for x, y in zip(cells[q], pos[q]) if max(abs(s - t) for s, t in zip(v, y)) < 1e-5] if q is not None else []
                    at.append(near[0] + 1 if near else 0)
                patches.append(dict(cell=0 if q is None else q + 1, at=at, f=[[ex(data[m][s]) for s in range(b, b + n)] for m in order]))
            out.append(dict(levels=levels, names=order, patches=patches))
        ev.append(dict(reset=reset, q=[[n["q"][m] for n in nodes] for m in range(len(c["der"]))],
                       nodes=[dict(U=n["U"], P=n["P"], I=n["I"], a=n["a"], m=n["m"], row=[dict(j=j + 1, c=v) for j, v in n["row"]],
                                   con=[dict(j=j + 1, w=w) for j, w in n["con"]]) for n in nodes],
                       cells=[dict(v=[v[0] + 1 for v in x], lev=[[rat(f([Fraction(value(t)) for t in v[1]])) for v in x] for _, f in c["levels"]]) for x in cells],
                       out=out))
        reset = False
        k += 1
    return dict(eq=c["eq"], dim=c["dim"], gamma="3/2", beta=ex(c["beta"]), recompute=c["recompute"], tol="1/500000", fields=c["fields"],
                derived=c["der"], ev=ev)


def value(s):
    m, _, e = s.partition("b")
    return Fraction(int(m)) * Fraction(2) ** int(e or 0)


def rat(f):
    return f"{f.numerator}/{f.denominator}"


def model(ctx):
    inv = dict(spec="Spec", invariants=["InRange", "Monotone", "Signed", "Extremes", "Once"], properties=["Kept"])
    for rec in (True, False):
        ctx.model_ok("MCVtu", f"normalization, bounds {'recomputed' if rec else 'kept'}",
                     constants=dict(RECOMPUTE=rec, BETA="10", VALUES={-4, 0, 1} if ctx.quick else {-4, -1, 0, 1, 7}, OUTPUTS=2, CELLS=1, SIGNS={0}, OWNEDONLY=True), **inv)
    ctx.model_ok("MCVtu", "cell selection on two processes", constants=dict(RECOMPUTE=True, BETA="10", VALUES={0}, OUTPUTS=1, CELLS=3 if ctx.quick else 6,
                 SIGNS={-1, 0, 1}, OWNEDONLY=True), **inv)


def run(ctx):
    model(ctx)
    ctx.build(*EXE.values())
    cases = [case(ctx.rng, k, ctx.quick) for k in range(24 if ctx.quick else 240)]
    tr = ctx.map(lambda c: execute(ctx, c), cases)
    keep = [k for k, t in enumerate(tr) if t]
    show = lambda c: {k: (v if k != "levels" else [e for e, _ in v]) for k, v in c.items()}
    ctx.validate("TraceVtu", [tr[k] for k in keep], lambda i: dict(case=show(cases[keep[i]])), heap="4g")
    ctx.extra["files"] = sum(len(e["out"]) for k in keep for e in tr[k]["ev"])
    ctx.assumptions += ["values are written as single precision numbers: compared to 2e-6", "the output is read back at the vertices of the cells"]
