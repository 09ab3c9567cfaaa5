"""C08: approximate Riemann solvers bound the maximal wave speed from above."""
import math
from . import pt
from .pt import x, xs, ex, exs, batch

GAMMAS = [1.4, 5 / 3, 1.1, 1.01, 1.3]


def lg(rng, a, b):
    return 10 ** rng.uniform(a, b)


def unit(rng, dim):
    if dim == 1:
        return [rng.choice([1.0, -1.0])]
    t = rng.choice([rng.uniform(0, 2 * math.pi), rng.choice([0, 0.25, 0.5, 1]) * math.pi])
    return [math.cos(t), math.sin(t)]


def rotate(rng, dim, vs):
    """the same rotation or reflection of all vectors"""
    if dim == 1:
        return [[-v[0]] for v in vs]
    t, s = rng.uniform(0, 2 * math.pi), rng.choice([1, -1])
    c, d = math.cos(t), math.sin(t)
    return [[c * v[0] - d * v[1], s * (d * v[0] + c * v[1])] for v in vs]


def gas_pair(rng, gamma=1.4, gamma2=None, b=0.0, pinf=0.0):
    """two sides (rho, u, p) of all kinds of strength"""
    kind = rng.choice(["any", "any", "near", "collide", "collide", "expand", "contact", "equal", "vacuum"])
    rmax = 0.9 / b if b else 1e4
    def one(s=3):
        return [min(lg(rng, -s, s), rmax * rng.uniform(0.1, 1)), 0.0, lg(rng, -s, s) * rng.choice([1, 1, max(1, pinf)])]
    l, r = one(), one()
    if kind in ("near", "equal", "collide", "expand") and rng.random() < 0.6 or kind in ("near", "equal"):
        l = one(1)
        r = [v * (1 + (rng.uniform(-0.5, 0.5) if kind != "equal" else 0) * rng.choice([1, 1e-3, 1e-9])) for v in l]
        r[0] = min(r[0], rmax)
    if kind == "contact":
        r[2] = l[2]
    if kind == "vacuum":
        l[0] *= 1e-8
        l[2] *= 1e-10
    a = [math.sqrt(g * (s[2] + pinf) / s[0] / (1 - b * s[0])) for g, s in ((gamma, l), (gamma2 or gamma, r))]
    sc = rng.choice([min(a), max(a), a[0], a[1]])
    du = sc * {"any": rng.uniform(-3, 3), "near": rng.uniform(-0.3, 0.3), "contact": rng.choice([0, 0, 0.1]),
               "equal": 0, "vacuum": rng.uniform(-1, 1), "collide": -lg(rng, -2, 1.3),
               "expand": lg(rng, -2, 1.3)}[kind]
    base = rng.choice([0, 0, rng.uniform(-3, 3) * sc])
    l[1], r[1] = base - du / 2, base + du / 2
    if kind == "equal":
        r = list(l)
    if rng.random() < 0.5:
        l, r = [r[0], -r[1], r[2]], [l[0], -l[1], l[2]]
    return kind, l, r


def vel(rng, dim, u, n, tangential):
    """velocity with the component u in direction n"""
    if dim == 1:
        return [u * n[0]]
    t = tangential
    return [u * n[0] - t * n[1], u * n[1] + t * n[0]]


def tol_abs(*vs):
    return ex(1e-13 * sum(abs(c) for v in vs for c in v))


def euler(ctx, rng, dim, count):
    gamma = rng.choice(GAMMAS)
    runs = {}
    pairs = [gas_pair(rng, gamma) for _ in range(count)]
    lines, items = [], []
    for kind, l, r in pairs:
        n = unit(rng, dim)
        st = []
        for s in (l, r):
            v = vel(rng, dim, s[1], n, rng.choice([0, rng.uniform(-1, 1) * abs(s[1])]))
            st.append([s[0]] + [s[0] * c for c in v] + [s[2] / (gamma - 1) + 0.5 * s[0] * sum(c * c for c in v)])
        if min(st[0][-1] - 0.5 * sum(c * c for c in st[0][1:-1]) / st[0][0],
               st[1][-1] - 0.5 * sum(c * c for c in st[1][1:-1]) / st[1][0]) <= 1e-6 * max(st[0][-1], st[1][-1]) * 0 + 1e-300:
            continue
        mL, mR, nn = rotate(rng, dim, [st[0][1:-1], st[1][1:-1], n])
        st += [[st[0][0]] + mL + [st[0][-1]], [st[1][0]] + mR + [st[1][-1]]]
        neg = [-c for c in n]
        lines += ["nodes 4 " + " ".join(xs(s) for s in st), "rs 0 1 " + xs(n), "rs 1 0 " + xs(neg), "rs 2 3 " + xs(nn)]
        items.append(dict(eq="euler", gamma=ex(gamma), L=exs(st[0]), R=exs(st[1]), pl="0", pr="0", n=exs(n), kind=kind))
    lam = {}
    for it in (0, 2, 10):
        extra = {"B - Equation": {"gamma": repr(gamma)},
                 "F - HyperbolicModule/riemann solver": {"newton max iterations": it}}
        rec = batch(ctx, "euler", dim, extra, lines)
        if rec is None:
            return []
        lam[it] = [r["lambda"] for r in rec if r["e"] == "rs"]
    out = []
    for k, it in enumerate(items):
        kind = it.pop("kind")
        cond = 1e-13 * (1 + sum(abs(sum(float_of(c) ** 2 for c in s[1:-1]) / float_of(s[0]) / internal(s)) for s in (it["L"], it["R"])))
        tol = max(1e-9, 50 * cond)
        if tol > 1e-4:
            continue
        out.append(dict(it, lam=[lam[0][3 * k + j] for j in range(3)], tol=ex(tol),
                        checks=["bound", "same"] + (["sharp"] if kind == "equal" else []), sharp=ex(max(1e-6, tol))))
        out.append(dict(it, lam=[lam[i][3 * k] for i in (0, 2, 10)], tol=ex(tol), sharp=ex(max(1e-5, tol)),
                        checks=["bound", "falling", "sharp"]))
    return out


def float_of(s):
    if "b" in s:
        m, e = s.split("b")
        return math.ldexp(int(m), int(e))
    return float(s)


def internal(U):
    f = [float_of(c) for c in U]
    return f[-1] - 0.5 * sum(c * c for c in f[1:-1]) / f[0]


def aeos_data(ctx, rng, dim, count):
    """Arbitrary data of the solver for two gases of different exponents."""
    b, q, pinf = rng.choice([(0, 0, 0), (0, 0, 0), (0.25, 0, 0), (0, 0, 1.0), (0.1, 0.5, 100.0), (0, 0, 1e-2)])
    strict = rng.choice([True, False])
    lines, items = [], []
    for _ in range(count):
        gs = [rng.choice([1.01, 1.1, 1.4, 5 / 3, 2, 3, 5, rng.uniform(1.02, 4)]) for _ in range(2)]
        if rng.random() < 0.4:
            gs[1] = gs[0]
        kind, l, r = gas_pair(rng, gs[0], gs[1], b, pinf)
        if kind == "equal":
            gs[1] = gs[0]
        d = [[s[0], s[1], s[2], g, math.sqrt(g * (s[2] + pinf) / (s[0] * (1 - b * s[0])))] for s, g in zip((l, r), gs)]
        m = [[s[0], -s[1]] + s[2:] for s in (d[1], d[0])]
        lines += ["rp " + xs(d[0]) + " " + xs(d[1]), "rp " + xs(m[0]) + " " + xs(m[1])]
        items.append(dict(eq="gas", L=exs(d[0]), R=exs(d[1]), b=ex(b), pinf=ex(pinf), tol="1e-9",
                          sharp="1e-6", checks=["bound", "same"] + (["sharp"] if kind == "equal" else [])))
    rec = batch(ctx, "aeos", dim, eos(b, q, pinf, 1.4, strict), lines)
    if rec is None:
        return []
    for k, it in enumerate(items):
        it["lam"] = [rec[2 * k]["lambda"], rec[2 * k + 1]["lambda"]]
    return items


def eos(b, q, pinf, gamma, strict=True):
    return {"B - Equation": {"equation of state": "noble abel stiffened gas", "compute strict bounds": strict},
            "B - Equation/noble abel stiffened gas": {"gamma": repr(gamma), "covolume b": repr(float(b)),
                                                      "reference specific internal energy": repr(float(q)),
                                                      "reference pressure": repr(float(pinf))}}


def aeos(ctx, rng, dim, count):
    """States and the pressure of the equation of state."""
    law = rng.choice(["polytropic gas", "noble abel stiffened gas", "noble abel stiffened gas", "van der waals"])
    gamma = rng.choice([1.1, 1.4, 5 / 3, 2.0, 3.0])
    b = q = pinf = 0.0
    strict = rng.choice([True, False])
    if law == "noble abel stiffened gas":
        b, q, pinf = rng.choice([(0.25, 0, 0), (0, 0, 1.0), (0.125, 0.5, 10.0), (0, -0.5, 0.25)])
        extra = eos(b, q, pinf, gamma, strict)
    else:
        par = {"gamma": repr(gamma)}
        if law == "van der waals":
            b = 0.25
            par.update({"vdw a": "0.5", "covolume b": "0.25"})
            pinf = 0.5 / b ** 2
        extra = {"B - Equation": {"equation of state": law, "compute strict bounds": strict}, "B - Equation/" + law: par}
    lines, items = [], []
    for _ in range(count):
        kind, l, r = gas_pair(rng, gamma, gamma, b, pinf)
        n = unit(rng, dim)
        st = []
        for s in (l, r):
            v = vel(rng, dim, s[1], n, rng.choice([0, rng.uniform(-1, 1) * abs(s[1])]))
            if law == "van der waals":
                e = (s[2] + 0.5 * s[0] ** 2) * (1 - b * s[0]) / (gamma - 1) - 0.5 * s[0] ** 2
            else:
                e = (s[2] + gamma * pinf) * (1 - b * s[0]) / (gamma - 1) + q * s[0]
            st.append([s[0]] + [s[0] * c for c in v] + [e + 0.5 * s[0] * sum(c * c for c in v)])
        off = [st[i][0] * q + pinf * (1 - b * st[i][0]) for i in (0, 1)]
        if any(internal([repr(c) for c in s]) - o < 1e-9 * s[-1] for s, o in zip(st, off)):
            continue
        mL, mR, nn = rotate(rng, dim, [st[0][1:-1], st[1][1:-1], n])
        st += [[st[0][0]] + mL + [st[0][-1]], [st[1][0]] + mR + [st[1][-1]]]
        lines += ["nodes 4 " + " ".join(xs(s) for s in st), "rs 0 1 " + xs(n), "rs 1 0 " + xs([-c for c in n]),
                  "rs 2 3 " + xs(nn)]
        cond = max((abs(s[-1]) + abs(q) * s[0] + pinf) / (internal([repr(c) for c in s]) - o) for s, o in zip(st, off))
        tol = max(1e-9, 1e-12 * cond)
        items.append(dict(eq="aeos", L=exs(st[0]), R=exs(st[1]), b=ex(b), q=ex(q), pinf=ex(pinf), n=exs(n), tol=ex(tol),
                          sharp=ex(max(1e-6, tol)), checks=["bound", "same"] + (["sharp"] if kind == "equal" else [])))
    rec = batch(ctx, "aeos", dim, extra, lines)
    if rec is None:
        return []
    out = []
    for k, it in enumerate(items):
        if float_of(it["tol"]) > 1e-4:
            continue
        it["pl"], it["pr"] = rec[4 * k]["prec"][0][0], rec[4 * k]["prec"][1][0]
        it["lam"] = [r["lambda"] for r in rec[4 * k + 1:4 * k + 4]]
        out.append(it)
    return out


def water(ctx, rng, dim, count):
    g = rng.choice([9.81, 1.0, 0.1])
    lines, items = [], []
    for _ in range(count):
        kind, l, r = gas_pair(rng)
        h = [lg(rng, -2, 2), lg(rng, -2, 2)]
        if kind == "vacuum":
            h[0] *= rng.choice([1e-6, 1e-10])
        if kind in ("near", "equal", "contact"):
            h[1] = h[0] * (1 if kind == "equal" else 1 + rng.uniform(-0.3, 0.3))
        a = [math.sqrt(g * x) for x in h]
        du = rng.choice([min(a), max(a)]) * {"any": rng.uniform(-3, 3), "near": rng.uniform(-0.3, 0.3), "contact": 0,
                                             "equal": 0, "vacuum": rng.choice([0, rng.uniform(-3, 3)]),
                                             "collide": -lg(rng, -2, 1.3), "expand": lg(rng, -2, 1.3)}[kind]
        base = rng.choice([0, 0, rng.uniform(-3, 3) * max(a)])
        us = [base - du / 2, base + du / 2]
        if rng.random() < 0.5:
            h, us = h[::-1], [-us[1], -us[0]]
        n = unit(rng, dim)
        st = []
        for s in range(2):
            v = vel(rng, dim, us[s], n, rng.choice([0, rng.uniform(-1, 1) * abs(us[s])]))
            st.append([h[s]] + [h[s] * c for c in v])
        mL, mR, nn = rotate(rng, dim, [st[0][1:], st[1][1:], n])
        st += [[h[0]] + mL, [h[1]] + mR]
        lines += ["nodes 4 " + " ".join(xs(s) for s in st), "rs 0 1 " + xs(n), "rs 1 0 " + xs([-c for c in n]),
                  "rs 2 3 " + xs(nn)]
        items.append(dict(eq="sw", g=ex(g), L=exs(st[0]), R=exs(st[1]), pl="0", pr="0", n=exs(n), tol="1e-9", sharp="1e-6",
                          checks=["bound", "same"] + (["sharp"] if kind == "equal" else [])))
    rec = batch(ctx, "sw", dim, {"B - Equation": {"gravity": repr(g)}}, lines)
    if rec is None:
        return []
    for k, it in enumerate(items):
        it["lam"] = [r["lambda"] for r in rec[4 * k + 1:4 * k + 4]]
    return items


def scalar(ctx, rng, dim, count):
    """Polynomial fluxes; the estimates with and without the options of the solver."""
    flux = rng.choice(["burgers", "function", "function", "function", "kpp"])
    delta = 1e-10
    if flux == "burgers":
        poly = [[0, 0.5, 0]] * dim
        par = {}
    elif flux == "kpp":
        par = {}
        poly = None
    else:
        poly = [[rng.choice([0, 0, 1, -2, 0.5]), rng.choice([0.5, -1, 1, 0, 2]), rng.choice([0, 0, 1, 0.25, -0.5])] for _ in range(dim)]
        delta = rng.choice([1e-10, 1e-8, 1e-6])
        par = {"expression": ";".join("+".join(f"({c!r})*" + "*".join("u" * k) for k, c in enumerate(p, 1)) for p in poly),
               "derivative approximation delta": repr(delta)}
    lines, items = [], []
    for _ in range(count):
        s = lg(rng, -1, 1)
        a = rng.choice([0, 1, -1, rng.uniform(-s, s)])
        b = rng.choice([a, -a, rng.uniform(-s, s), a + s * rng.choice([1e-3, -1e-3, 1e-7, -1e-7, 3 * delta]), 0])
        n = unit(rng, dim)
        if poly and rng.random() < 0.5:
            # both sides of an inflection point, where the derivatives are smaller than the slope of the secant
            c = [sum(p[k] * d for p, d in zip(poly, n)) for k in range(3)]
            if c[2]:
                m = -c[1] / (3 * c[2])
                w = -(c[0] + 2 * c[1] * m + 3 * c[2] * m * m) / (3 * c[2])
                if 1e-4 < w < 50 and abs(m) < 10:
                    w = (w * rng.uniform(0.55, 1.4)) ** 0.5
                    a, b = rng.choice([(m - w, m + w), (m + w, m - w)])
        lines += ["nodes 2 " + xs([a, b]), "rs 0 1 " + xs(n), "rs 1 0 " + xs([-c for c in n])]
        it = dict(eq="scalar", a=ex(a), b=ex(b), h=ex(4 * delta))
        if poly:
            c = [sum(p[k] * d for p, d in zip(poly, n)) for k in range(3)]
            u = max(abs(a), abs(b), 1e-3)
            scale = sum(abs(p[k]) * max(u, u ** (k + 1)) * (k + 1) for p in poly for k in range(3)) + 1e-3
            tol = (1e-12 if flux == "burgers" else 1e-15 / delta + 10 * delta) * scale
            it.update(c=exs(c), abs=ex(tol), rabs=ex(tol + (1e-15 * scale / abs(a - b) if a != b else 0)))
        else:
            it.update(c=["0"], abs="1e-12", rabs="0")
        items.append(it)
    out = []
    for opts, checks in [({}, ["bound", "roe"]), ({"use averaged entropy": True}, ["bound", "roe", "entropy"]),
                         ({"use greedy wavespeed": True}, ["roe"]), ({"random entropies": 2}, ["bound", "roe"]),
                         ({"use greedy wavespeed": True, "use averaged entropy": True}, ["roe", "entropy"])]:
        rec = batch(ctx, "scalar", dim, {"B - Equation": {"flux": flux}, "B - Equation/" + flux: par,
                                         "F - HyperbolicModule/riemann solver": opts}, lines)
        if rec is None:
            return []
        for k, it in enumerate(items):
            lam = [r["lambda"] for r in rec[3 * k + 1:3 * k + 3]]
            ch = [c for c in checks if poly] + (["same"] if "random entropies" not in opts else [])
            out.append(dict(it, lam=lam, checks=ch))
    return out


def run(ctx):
    rng = ctx.rng
    small = dict(Variant="rarefaction", Law="gas", Gammas={"1.4", "5/3"}, Rhos={"1b-3", "1"}, Us={"-3", "0", "1"},
                 Ps={"1b-4", "1", "8"}, Covolumes={"0"})
    large = dict(small, Gammas={"1.4", "5/3", "1.1"}, Rhos={"1b-3", "1", "10"}, Us={"-3", "-1b-1", "0", "1", "6"})
    mc = dict(init="MCInit", next="MCNext")
    size = small if ctx.quick else large
    ctx.model_ok("MCRiemann", "estimate of the two rarefactions", invariants=["Bound", "Certificate"], constants=size, **mc)
    ctx.model_ok("MCRiemann", "estimate with the failsafe pressure", invariants=["Explained"],
                 constants=dict(size, Variant="code"), **mc)
    ctx.model_ok("MCRiemann", "shallow water", invariants=["Bound", "Certificate"], constants=dict(size, Law="sw"), **mc)
    ctx.build(*pt.EXE.values())
    n = 40 if ctx.quick else 400
    jobs = [(f, rng.choice([1, 2]), n if f != scalar else n // 4) for f in (euler, aeos_data, aeos, water, scalar) for _ in range(6 if ctx.quick else 24)]
    import random
    seeds = [rng.randrange(10 ** 9) for _ in jobs]
    res = ctx.map(lambda j: j[0][0](ctx, random.Random(j[1]), *j[0][1:]), list(zip(jobs, seeds)))
    traces, what = [], []
    for (job, seed), items in zip(zip(jobs, seeds), res):
        for k in range(0, len(items or []), 10):
            traces.append(dict(items=items[k:k + 10]))
            what.append(dict(problem=job[0].__name__, dim=job[1], seed=seed, first=k))
    ctx.validate("TraceRiemann", traces, lambda i: what[i], constants=dict(Lenient=False),
                 lenient=("euler-failsafe-pressure", dict(Lenient=True)))
