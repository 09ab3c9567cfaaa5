"""C18 (state algebra) and the pointwise part of C15 (boundary conditions)."""
import math, random
from . import pt
from .pt import xs, x, ex, exs, batch
from .c08 import lg, unit

BC = {"do_nothing": 0, "periodic": 1, "slip": 2, "no_slip": 3, "dirichlet": 4, "dynamic": 5, "dirichlet_momentum": 6}


def law(rng):
    """law of the specification, parameters of the solver, float form"""
    name = rng.choice(["polytropic gas", "noble abel stiffened gas", "van der waals", "jones wilkins lee"])
    f = dict(name=name, gamma=rng.choice([1.4, 5 / 3, 1.1, 2.0]), a=0.0, b=0.0, q=0.0, pinf=0.0, e0=0.0, A=1.0, B=-0.125, R1=4.5, R2=1.5,
             omega=0.75, rho0=1.0, cv=1.0)
    R = rng.choice([287.052874, 0.4, 8.0])
    par = {"gamma": repr(f["gamma"]), "gas constant R": repr(R)}
    f["cv"] = R / (f["gamma"] - 1.)
    if name == "noble abel stiffened gas":
        f["b"], f["q"], f["pinf"] = rng.choice([(0.25, 0, 0), (0, 0, 1.0), (0.125, 0.5, 10.0), (0.25, -0.5, 0.25), (0, 0, 0), (0, -2.0, 0)])
        par.update({"covolume b": repr(f["b"]), "reference specific internal energy": repr(f["q"]), "reference pressure": repr(f["pinf"])})
    elif name == "van der waals":
        f["a"], f["b"] = rng.choice([(0.5, 0.25), (0, 0.25), (0.5, 0), (1.0, 0.125)])
        f["pinf"] = f["a"] / f["b"] ** 2 if f["b"] else 0.0
        par.update({"vdw a": repr(f["a"]), "covolume b": repr(f["b"])})
    elif name == "jones wilkins lee":
        f.update(A=rng.uniform(0.5, 20), B=rng.uniform(-0.3, 0.3), R1=rng.uniform(2, 11), R2=rng.uniform(0.5, 2), omega=rng.uniform(0.25, 1),
                 rho0=rng.uniform(0.5, 2), e0=rng.choice([0.0, 0.5, -0.25]), cv=rng.uniform(0.1, 10))
        par = {k: repr(f[v]) for k, v in (("A", "A"), ("B", "B"), ("R1", "R1"), ("R2", "R2"), ("omega", "omega"), ("rho_0", "rho0"),
                                          ("q_0", "e0"), ("c_v", "cv"))}
    L = {k: v if k == "name" else ex(v) for k, v in f.items()}
    return L, {"B - Equation": {"equation of state": name}, "B - Equation/" + name: par}, f


def jwl(f, rho, sign=1):
    r = rho / f["rho0"]
    return sum((abs(A) if sign > 0 else A) * (1 - sign * -f["omega"] / R * r if sign > 0 else 1 - f["omega"] / R * r) * math.exp(-R / r)
               for A, R in ((f["A"], f["R1"]), (f["B"], f["R2"])))


def mags(f, rho):
    """magnitudes of the terms of pressure and temperature that do not contain the energy"""
    if f["name"] == "noble abel stiffened gas":
        c = 1 - f["b"] * rho
        return (f["gamma"] - 1) * rho * abs(f["q"]) / abs(c) + f["gamma"] * f["pinf"], abs(f["q"]) + f["pinf"] * (1 / rho + f["b"])
    if f["name"] == "van der waals":
        t = f["a"] * rho * rho
        return t * (1 + (f["gamma"] - 1) / abs(1 - f["b"] * rho)), f["a"] * rho
    if f["name"] == "jones wilkins lee":
        return jwl(f, rho) + f["omega"] * rho * abs(f["e0"]), abs(f["e0"]) + (abs(f["A"]) / f["R1"] + abs(f["B"]) / f["R2"]) / f["rho0"]
    return 0.0, 0.0


def physics(eq, rng, dim):
    P = dict(eq=eq, gamma="7/5", gravity="1", L=dict(name="", gamma="7/5", pinf="0", b="0", q="0"), poly=[], kpp=False, tol="1e-12", dtol="1e-12")
    f = dict(gamma=1.4, g=1.0, name="")
    if eq == "euler":
        f["gamma"] = rng.choice([1.4, 5 / 3, 1.1, 2.0, 3.0])
        P["gamma"] = ex(f["gamma"])
        return P, {"B - Equation": {"gamma": repr(f["gamma"])}}, f
    if eq == "aeos":
        L, par, f = law(rng)
        return dict(P, L=L, gamma=L["gamma"]), par, f
    if eq == "sw":
        f["g"] = rng.choice([1.0, 9.81, 0.25])
        return dict(P, gravity=ex(f["g"])), {"B - Equation": {"gravity": repr(f["g"])}}, f
    flux = rng.choice(["burgers", "kpp", "function", "function"])
    if flux == "burgers":
        return dict(P, poly=[["0", "1/2"]] * dim), {"B - Equation": {"flux": flux}}, f
    if flux == "kpp":
        return dict(P, poly=[[]] * dim, kpp=True), {"B - Equation": {"flux": flux}}, f
    c = [[rng.choice([-1, 0, 0.5, 2]) for _ in range(3)] for _ in range(dim)]
    e = "; ".join(f"{a}*u + {b}*u*u + {d}*u*u*u" for a, b, d in c)
    return (dict(P, poly=[exs(v) for v in c], dtol="1e-4"),
            {"B - Equation": {"flux": flux}, "B - Equation/function": {"expression": e}}, f)


def energy(eq, f, rng, rho):
    if eq == "euler" or f["name"] == "polytropic gas":
        return lg(rng, -4, 4)
    if f["name"] == "noble abel stiffened gas":
        return f["q"] + f["pinf"] * (1 - f["b"] * rho) / rho + lg(rng, -3, 3)
    if f["name"] == "van der waals":
        return max(f["pinf"] * (1 - f["b"] * rho) / rho, 0) + lg(rng, -2, 3)
    return lg(rng, -2, 2) + abs(f["e0"])


def state(eq, rng, dim, f, wild=False):
    if eq == "scalar":
        return [rng.choice([rng.uniform(-3, 3), 0.0, 0.25, rng.uniform(0.2, 0.3)])]
    rho = lg(rng, -3, 3)
    if f.get("b"):
        rho = rng.uniform(0.01, 0.95) / f["b"]
    if f["name"] == "jones wilkins lee":
        rho = f["rho0"] * rng.uniform(0.3, 3)
    n = unit(rng, dim)
    if eq == "sw":
        v = rng.choice([0, 1, 3]) * math.sqrt(f["g"] * rho) * rng.random()
        return [rho] + [rho * v * c for c in n]
    e = energy(eq, f, rng, rho) * (rng.choice([-1, 1]) if wild else 1)
    v = rng.choice([0, 0.3, 1, 3, 10]) * math.sqrt(f["gamma"] * abs(e)) * rng.random()
    return [rho] + [rho * v * c for c in n] + [rho * e + 0.5 * rho * v * v]


def alg_job(ctx, rng, eq, dim, n):
    P, extra, f = physics(eq, rng, dim)
    lines, items = [], []
    for _ in range(n):
        U = state(eq, rng, dim, f, wild=rng.random() < 0.1 and (eq == "euler" or f["name"] == "noble abel stiffened gas"))
        lines.append("alg " + xs(U))
        pm, tm = mags(f, U[0]) if eq == "aeos" else (0, 0)
        items.append(dict(e="alg", U=exs(U), pmag=ex(pm), tmag=ex(tm)))
        if rng.random() < 0.5:
            W = list(U)
            if eq != "scalar":
                k = len(U) - (eq != "sw")
                W[1:k] = [c / U[0] for c in U[1:k]]
                if eq != "sw":
                    W[-1] = lg(rng, -2, 2) if eq == "euler" or f["name"] != "jones wilkins lee" else jwl(f, U[0], -1) + U[0] * f["omega"] * lg(rng, -1, 1)
                    W[-1] = float(W[-1])
            lines.append("prim " + xs(W))
            items.append(dict(e="prim", W=exs(W), pmag=ex(pm), tmag=ex(tm)))
        if rng.random() < 0.3:
            M = [rng.uniform(-2, 2) for _ in range(dim)]
            lines.append("galilei " + xs(U) + " " + xs(M))
            items.append(dict(e="galilei", U=exs(U), M=exs(M)))
    rec = batch(ctx, eq, dim, extra, lines)
    if rec is None:
        return None
    for i, r in zip(items, rec):
        i["r"] = r
    return P, items


def bc_job(ctx, rng, eq, dim, n):
    P, extra, f = physics(eq, rng, dim)
    ids = {"euler": ["do_nothing", "periodic", "slip", "no_slip", "dirichlet", "dynamic", "dynamic", "dynamic"],
           "aeos": ["do_nothing", "periodic", "slip", "no_slip", "dirichlet"],
           "sw": list(BC) + ["dynamic", "dynamic"], "scalar": ["do_nothing", "periodic", "dirichlet"]}[eq]
    lines, items = [], []
    for _ in range(n):
        i = rng.choice(ids)
        U, nrm = state(eq, rng, dim, f), unit(rng, dim)
        D = state(eq, rng, dim, f)
        if i == "dynamic":
            # prescribe the normal Mach number: all four regimes and their borders
            def flow(rho, c, Ma, tang):
                t = [-nrm[1], nrm[0]] if dim == 2 else [0.0]
                return [Ma * c * nrm[d] + tang * c * t[d] for d in range(dim)]
            def make():
                rho = lg(rng, -2, 2)
                Ma = rng.choice([-3, -1.001, -0.999, -0.5, -0.01, 0, 0.01, 0.5, 0.999, 1.001, 3, rng.uniform(-2, 2)])
                tang = rng.choice([0, rng.uniform(-2, 2)])
                if eq == "sw":
                    v = flow(rho, math.sqrt(f["g"] * rho), Ma, tang)
                    return [rho] + [rho * c for c in v]
                p = lg(rng, -2, 2)
                v = flow(rho, math.sqrt(f["gamma"] * p / rho), Ma, tang)
                return [rho] + [rho * c for c in v] + [p / (f["gamma"] - 1) + 0.5 * rho * sum(c * c for c in v)]
            U = make()
            D = rng.choice([make, make, lambda: list(U), lambda: [c * (1 + 0.2 * rng.uniform(-1, 1)) for c in U]])()
            if eq == "euler" and D[-1] <= 0.5 * sum(c * c for c in D[1:-1]) / D[0] * 1.01:
                D = list(U)
        lines.append(f"bc {BC[i]} {xs(U)} {xs(nrm)} {xs(D)}")
        items.append(dict(e="bc", id=i, U=exs(U), n=exs(nrm), D=exs(D)))
    rec = batch(ctx, eq, dim, extra, lines)
    if rec is None:
        return None
    for i, r in zip(items, rec):
        i["r"] = r
    return P, items


def validate(ctx, job, eqs, n, reps):
    ctx.build(*pt.EXE.values())
    jobs = [(eq, ctx.rng.choice([1, 2]), n, ctx.rng.randrange(10 ** 9)) for eq in eqs for _ in range(reps)]
    res = ctx.map(lambda j: job(ctx, random.Random(j[3]), *j[:3]), jobs)
    traces, what = [], []
    for j, r in zip(jobs, res):
        if r is None:
            continue
        for k in range(0, len(r[1]), 10):
            traces.append(dict(P=r[0], items=r[1][k:k + 10]))
            what.append(dict(eq=j[0], dim=j[1], seed=j[3], first=k))
    ctx.validate("TraceAlgebra", traces, lambda i: what[i])


def run(ctx):
    model(ctx)
    validate(ctx, alg_job, ["euler", "aeos", "aeos", "sw", "scalar"], 30 if ctx.quick else 100, 6 if ctx.quick else 40)


def model(ctx):
    ctx.model_ok("MCAlgebra", "identities of the specified gas laws, entropies, fluxes and boundary states", init="MCInit", next="MCNext",
                 invariants=["Thermodynamic", "EntropyPair", "Conversion", "Rotation", "Galilei", "Conditions"],
                 constants=dict(Deep=not ctx.quick))
