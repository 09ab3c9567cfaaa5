"""C07: the contract of the convex limiters."""
import math, random
from . import pt
from .pt import xs, x, ex, exs, batch
from .c08 import lg, unit, eos

IT = [0, 1, 2, 2, 2, 3, 20]


def physics(eq, rng):
    """(physics of the specification, parameters of the solver, float parameters)"""
    base = dict(eq=eq, gamma="0", b="0", q="0", pinf="0", gravity="1", kinetic=False, velocity=False, strict=False)
    f = dict(gamma=1.4, b=0.0, q=0.0, pinf=0.0, g=1.0)
    if eq == "euler":
        f["gamma"] = rng.choice([1.4, 5 / 3, 1.1, 2.0, 3.0])
        return dict(base, gamma=ex(f["gamma"])), {"B - Equation": {"gamma": repr(f["gamma"])}}, {}, f
    if eq == "aeos":
        f["gamma"] = rng.choice([1.4, 5 / 3, 1.1, 2.0])
        f["b"], f["q"], f["pinf"] = rng.choice([(0, 0, 0), (0.25, 0, 0), (0, 0, 1.0), (0.125, 0.5, 10.0), (0.25, -0.5, 0.25)])
        st = rng.choice([True, False])
        return (dict(base, gamma=ex(f["gamma"]), b=ex(f["b"]), q=ex(f["q"]), pinf=ex(f["pinf"]), strict=st),
                eos(f["b"], f["q"], f["pinf"], f["gamma"], st), {}, f)
    if eq == "sw":
        k, v = rng.choice([(True, False), (False, True), (True, True), (False, False)])
        f["g"] = rng.choice([1.0, 9.81])
        return (dict(base, gravity=ex(f["g"]), kinetic=k, velocity=v), {"B - Equation": {"gravity": repr(f["g"])}},
                {"limit on kinetic energy": k, "limit on square velocity": v}, f)
    poly = rng.choice([[0, 0.5, 0], [1, 0, 0]])
    p = dict(base, poly=None)
    f["poly"] = [0, 0.5]
    return p, {"B - Equation": {"flux": "burgers"}}, {}, f


def state(eq, rng, dim, f, spread=2):
    if eq == "scalar":
        return [rng.uniform(-1, 1) * lg(rng, -1, 1)]
    r = lg(rng, -spread, spread)
    if f["b"]:
        r = rng.uniform(0.05, 0.8) / f["b"]
    n = unit(rng, dim)
    if eq == "sw":
        v = rng.choice([0, 1, 3]) * math.sqrt(f["g"] * r) * rng.random()
        return [r] + [r * v * c for c in n]
    p = lg(rng, -spread, spread)
    v = rng.choice([0, 0.3, 1, 3]) * math.sqrt(f["gamma"] * (p + f["pinf"]) / r / (1 - f["b"] * r)) * rng.random()
    e = (p + f["gamma"] * f["pinf"]) * (1 - f["b"] * r) / (f["gamma"] - 1) + f["q"] * r
    return [r] + [r * v * c for c in n] + [e + 0.5 * r * v * v]


def shift(U, f):
    return U[-1] - 0.5 * sum(c * c for c in U[1:-1]) / U[0] - f["q"] * U[0] - f["pinf"] * (1 - f["b"] * U[0])


def entropy(U, f, g):
    return shift(U, f) * U[0] ** -g * (1 - f["b"] * U[0]) ** (g - 1)


def speed(eq, U, V, f):
    if eq == "scalar":
        return abs(U[0]) + abs(V[0]) + 0.1
    va = [math.sqrt(sum(c * c for c in W[1:1 + len(W) - (1 if eq == "sw" else 2)])) / W[0] for W in (U, V)]
    if eq == "sw":
        return sum(va) + 3 * math.sqrt(f["g"] * max(U[0], V[0]) ** 2 / min(U[0], V[0]))
    p = max(shift(W, f) * (f["gamma"] - 1) / (1 - f["b"] * W[0]) for W in (U, V))
    return sum(va) + 3 * math.sqrt(f["gamma"] * p / min(W[0] for W in (U, V)) / min(1 - f["b"] * W[0] for W in (U, V)))


def rows(rng, eq, dim, f, factor, count):
    """stencils: commands and items"""
    lines, items = [], []
    for _ in range(count):
        k = rng.randint(2, 5)
        base = state(eq, rng, dim, f)
        if rng.random() < 0.5:
            st = [state(eq, rng, dim, f) for _ in range(k)]
        else:
            st = [[c * (1 + 0.1 * rng.uniform(-1, 1)) for c in base] for _ in range(k)]
            if eq == "aeos" or eq == "euler":
                st = [s if shift(s, f) > 0 else list(base) for s in st]
        row = [(0, [0.0] * dim)]
        for j in range(1, k):
            lam = speed(eq, st[0], st[j], f)
            row.append((j, [c * rng.choice([1, rng.random(), 0.1]) / lam for c in unit(rng, dim)]))
        rng.shuffle(row)
        hd = lg(rng, -6, -0.5)
        lines += [f"nodes {k} " + " ".join(xs(s) for s in st),
                  f"row 0 {x(hd)} {len(row)} " + " ".join(f"{j} {xs(c)}" for j, c in row)]
        r = factor * hd ** (3 / (2 * dim)) * (1 + 1e-9)
        items.append((st, row, ex(r)))
    return lines, items


def limits(rng, eq, dim, P, f, count):
    out = []
    for _ in range(count):
        U = state(eq, rng, dim, f, 1.5)
        mode = rng.choice(["inside", "inside", "inside", "edge", "outside", "graze", "stuck"])
        w = lambda: rng.choice([0.5, 0.1, 1e-3, 1e-6]) if mode == "inside" else (0.0 if mode in ("edge", "graze") else rng.choice([0.3, -0.2, -0.05, 0.01]))
        if eq == "scalar":
            b = [U[0] - abs(U[0]) * w(), U[0] + abs(U[0]) * w()]
            if b[0] > b[1]:
                b.reverse()
        elif eq == "sw":
            m2 = sum(c * c for c in U[1:])
            b = [U[0] * (1 - w()), U[0] * (1 + w()), rng.choice([0, 0, 1e-4, 0.5 * U[0]]), 0.5 * m2 / U[0] * (1 + w()) + rng.choice([0, 1e-3]),
                 m2 / U[0] ** 2 * (1 + w()) + rng.choice([0, 1e-3])]
            if b[0] > b[1]:
                b[0], b[1] = b[1], b[0]
        else:
            g = rng.choice([f["gamma"], f["gamma"], 1 + (f["gamma"] - 1) * rng.uniform(0.3, 1)]) if eq == "aeos" else f["gamma"]
            b = [U[0] * (1 - w()), U[0] * (1 + w()), entropy(U, f, g) * (1 - w())]
            if b[0] > b[1]:
                b[0], b[1] = b[1], b[0]
            if f["b"]:
                b[1] = min(b[1], 0.99 / f["b"])
            b += [g] if eq == "aeos" else []
        D = state(eq, rng, dim, f, 1.5)
        s = lg(rng, -3, 1) * rng.choice([1, -1])
        n = len(U)
        D = [s * rng.choice([-1, 1, 1, 0.1]) * (U[k] if rng.random() < 0.3 else D[k] * abs(U[0] / D[0])) for k in range(n)]
        if rng.random() < 0.3 and n > 1:
            D[0] *= rng.choice([0, 1e-3, 1e-12])
        if rng.random() < 0.1:
            D = [0.0 if rng.random() < 0.7 else c for c in D]
        if mode == "graze" and n > 2:      # the update first moves away from the bounds of entropy or energy, then across
            D = [c * rng.uniform(-1, 1) * rng.choice([0, 1e-3, 0.3]) for c in U]
            k = rng.uniform(0.5, 8)
            D[1:1 + dim] = [-k * c for c in U[1:1 + dim]]
            b[0] *= rng.choice([1, 0.7])
            b[1] *= rng.choice([1, 1.3])
        if mode == "stuck":                # the density admits nothing
            up = rng.random() < 0.5
            b[1 if up else 0] = U[0]
            b[0 if up else 1] = U[0] * (0.9 if up else 1.1) if U[0] > 0 else U[0] + (-1 if up else 1)
            D[0] = abs(D[0]) if up else -abs(D[0])
        tmin, tmax = (0, 1) if mode == "stuck" else rng.choice([(0, 1)] * 6 + [(0, 0.5), (0.1, 1), (0.25, 0.75), (0, 2)])
        out.append((mode, b, U, D, tmin, tmax))
    return out


def combos(rng, n, count):
    out = []
    for _ in range(count):
        a = [rng.uniform(0, 2) for _ in range(n)]
        out.append((a, [rng.choice([v, rng.uniform(0, 2)]) for v in a]))
    return out


NB = dict(euler=3, aeos=4, sw=5, scalar=2)


def job(ctx, rng, eq, dim, n):
    P, extra, lim, f = physics(eq, rng)
    if eq == "scalar":
        P["poly"] = [["0", "1/2"]] * dim
    if eq == "sw" and not (P["kinetic"] or P["velocity"]):
        pass
    it = rng.choice(IT) if eq in ("euler", "aeos") else 20
    factor = rng.choice([1.0, 1.0, 4.0, 0.25])
    par = dict(lim, **{"relaxation factor": repr(factor)})
    if eq in ("euler", "aeos"):
        par["newton max iterations"] = it
    extra = dict(extra, **{"F - HyperbolicModule/limiter": par})
    l1, rws = rows(rng, eq, dim, f, factor, n // 3)
    lim_ = limits(rng, eq, dim, P, f, n)
    cmb = combos(rng, NB[eq], 5)
    l2 = ["combine " + xs(a) + " " + xs(b) for a, b in cmb]
    l3 = ["limit " + " ".join([xs(b), xs(U), xs(D), x(a), x(z)]) for _, b, U, D, a, z in lim_]
    rec = batch(ctx, eq, dim, extra, l1 + l2 + l3)
    if rec is None:
        return None
    items = []
    for k, (st, row, r) in enumerate(rws):
        prec, out = rec[2 * k]["prec"], rec[2 * k + 1]
        node = lambda j: dict(U=exs(st[j]), s=prec[j][0] if eq == "euler" else prec[j][2] if eq == "aeos" else "0",
                              p=prec[j][0] if eq == "aeos" else "0", gmin=prec[j][1] if eq == "aeos" else "0")
        items.append(dict(e="row", i=node(0), row=[dict(n=node(j), c=exs(c)) for j, c in row], r=r,
                          bounds=out["bounds"], relaxed=out["relaxed"]))
    for (a, b), o in zip(cmb, rec[len(l1):]):
        items.append(dict(e="combine", a=exs(a), b=exs(b), bounds=o["bounds"]))
    for (mode, b, U, D, tmin, tmax), o in zip(lim_, rec[len(l1) + len(l2):]):
        items.append(dict(e="limit", b=exs(b), U=exs(U), D=exs(D), tmin=ex(tmin), tmax=ex(tmax), t=o["t"], ok=o["ok"],
                          it=it, tol="1e-9", delta=ex(1e-5 * (tmax - tmin)), mode=mode))
    return P, items


def model(ctx):
    U = {("1", "0", "1"), ("1", "1", "1"), ("1", "1", "3"), ("2", "-1", "3")}
    D = {("0", "1", "1"), ("3", "0", "-2"), ("-1", "-3", "0"), ("1/2", "1", "-2")}
    B = {("1/2", "5/2", "0"), ("1", "5/2", "1/4"), ("1/2", "1", "1")}
    if not ctx.quick:
        U |= {("2", "1", "1"), ("1", "-1", "1")}
        D |= {("0", "0", "0"), ("-1", "0", "-2"), ("3", "-3", "1"), ("0", "-3", "0")}
        B |= {("1", "1", "0"), ("1/2", "5/2", "1/2")}
    ctx.model_ok("MCLimiter", "the limiter and the combination of both ends", init="MCInit", next="MCNext",
                 invariants=["Ordered", "LeftInside", "Maximal", "Reported", "Combined"], properties=["Shrinks"],
                 constants=dict(Variant="careful", MaxIt=3 if ctx.quick else 4, Us=U, Ds=D, Bs=B))


def run(ctx):
    model(ctx)
    ctx.build(*pt.EXE.values())
    n = 30 if ctx.quick else 150
    jobs = [(eq, ctx.rng.choice([1, 2]), n, ctx.rng.randrange(10 ** 9))
            for eq in ("euler", "aeos", "sw", "scalar") for _ in range(8 if ctx.quick else 40)]
    res = ctx.map(lambda j: job(ctx, random.Random(j[3]), *j[:3]), jobs)
    traces, what = [], []
    for j, r in zip(jobs, res):
        if r is None:
            continue
        for k in range(0, len(r[1]), 10):
            traces.append(dict(P=r[0], items=r[1][k:k + 10]))
            what.append(dict(eq=j[0], dim=j[1], seed=j[3], first=k))
    ctx.validate("TraceLimiter", traces, lambda i: what[i])
