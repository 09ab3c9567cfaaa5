"""C19: the parabolic (viscous and heat conduction) step."""
import json, os
from fractions import Fraction
import run as runner
import sim
from sim import q

BCS = ["do nothing", "slip", "no slip", "dirichlet", "dynamic", "dirichlet momentum"]


def ex(x):
    f = Fraction(x)
    return f"{f.numerator}/{f.denominator}"


def case(rng, k, quick):
    dim = [2, 2, 1, 2, 2, 3][k % 6]
    np = 1 if dim == 1 else rng.choice([1, 1, 2, 3])
    per = [rng.random() < 0.25 and dim > 1 for _ in range(dim)]
    kind = rng.choice(["mixed", "mixed", "natural", "no slip", "slip", "periodic"])
    if kind == "periodic" and dim > 1:
        per = [True] * dim
    bc = []
    for d in range(dim):
        pick = {"mixed": BCS, "natural": ["do nothing", "dynamic"], "no slip": ["no slip"], "slip": ["slip"],
                "periodic": ["do nothing"]}[kind]
        bc += ["periodic"] * 2 if per[d] else [rng.choice(pick), rng.choice(pick)]
    c = dict(dim=dim, np=np, per=per, bc=bc, level={1: rng.choice([2, 3, 4]), 2: rng.choice([1, 2, 2]), 3: 1}[dim],
             threads=rng.choice([1, 2]), lower=[0] * dim, upper=[rng.choice([1, 1, 2, 0.5]) for _ in range(dim)],
             mu=rng.choice([0, 1e-3, 0.03, 0.5]), lam=rng.choice([0, 0, 0.01, 0.3]), kappa=rng.choice([0, 1e-3, 0.05, 1]),
             tol=rng.choice([1e-12, 1e-10, 1e-6]), linf=rng.random() < 0.3, commands=[], steps=[], gmg=[False, False])
    if rng.random() < 0.15:
        c.update(mu=0, lam=0, kappa=0)
    if dim > 1 and rng.random() < 0.35:
        c["subdiv"] = [rng.choice([1, 2, 3]) if dim == 2 else rng.choice([1, 2]) for _ in range(dim)]
        c["level"] = 1
    if dim == 2 and not any(per) and "slip" not in bc and rng.random() < 0.4:
        c["distortion"] = 0.2
    if dim == 2 and rng.random() < 0.25 and c["level"] > 1:
        c["commands"].append("refine " + " ".join(str(c["upper"][e] * rng.choice([0.4, 0.6])) for e in range(dim)))
    if dim > 1 and not c["commands"] and rng.random() < 0.5:
        c["gmg"] = [rng.random() < 0.8, rng.random() < 0.8]
        c["minlevel"] = rng.choice([0, 0, 1])
        c["cheb"] = rng.choice([3, 3, 1])
    for n in range(rng.choice([2, 3, 6]) if any(c["gmg"]) else 2):
        if rng.random() < 0.3:
            c["commands"].append("strategy " + rng.choice(["warn", "raise"]))
        s = dict(seed=rng.randrange(1, 10 ** 6), t=rng.choice([0, 0.25, 1]), tau=rng.choice([1e-4, 1e-2, 0.05, 0.3]),
                 rho=rng.choice([0, 0.5, 2]), v=rng.choice([0, 0.2, 1]), e=rng.choice([0, 0.1, 2]),
                 **{"raise": bool([x for x in c["commands"] if x.startswith("strategy")] and
                                  [x for x in c["commands"] if x.startswith("strategy")][-1].endswith("raise"))})
        c["steps"].append(s)
        c["commands"].append("step {seed} {t} {tau} {rho} {v} {e}".format(**s))
    return c


def execute(ctx, c):
    d, dim = ctx.dir(), c["dim"]
    vel = ["0.2+0.1*x+0.3*t", "0.1*y-0.2*t", "0.05+0.1*z"][:dim] if dim > 1 else ["0.2+0.1*x+0.3*t"]
    fn = {"density expression": "1.2+0.1*x", "velocity x expression": vel[0], "pressure expression": "0.8+0.1*x+0.2*t"}
    for n, v in zip("yz", vel[1:]):
        fn[f"velocity {n} expression"] = v
    par = {"tolerance": c["tol"], "tolerance linfty norm": c["linf"], "multigrid velocity": c["gmg"][0], "multigrid energy": c["gmg"][1]}
    if any(c["gmg"]):
        par.update({"multigrid - min level": c["minlevel"], "multigrid - chebyshev degree": c["cheb"]})
    secs = sim.sections("navier_stokes", dim, c["level"], bc=c["bc"], lower=c["lower"], upper=c["upper"], subdiv=c.get("subdiv"),
                        extra={"B - Equation": {"gamma": 1.4, "mu": c["mu"], "lambda": c["lam"], "kappa": c["kappa"]},
                               "E - InitialValues": {"configuration": "function"}, "E - InitialValues/function": fn,
                               "G - ParabolicModule": par})
    if c.get("distortion"):
        secs["C - Discretization"]["mesh distortion"] = c["distortion"]
    secs.pop("H - TimeIntegrator")
    runner.write_prm(os.path.join(d, "a.prm"), secs)
    open(os.path.join(d, "in"), "w").write("\n".join(c["commands"]) + "\n")
    if ctx.run(ctx.exes["pa"], [dim, "a.prm", "in", "rec"], d, np=c["np"], threads=c["threads"]) is None:
        return None
    recs = [sim.parse(open(os.path.join(d, f"rec.{k}")).read()) for k in range(c["np"])]
    bad = lambda what: ctx.violation(what, dict(case=c))
    if any(not r or r[-1]["e"] != "end" or len(r) != 2 + len(c["steps"]) for r in recs):
        bad("the program fails on a valid input")
        return None
    nodes = sorted((n for r in recs for n in r[0]["nodes"]), key=lambda n: n["g"])
    idx = {n["g"]: k for k, n in enumerate(nodes, 1)}
    if len(idx) != len(nodes):
        bad("a degree of freedom has two owners")
        return None
    cells = [dict(d=[[dict(j=idx[e["j"]], w=e["w"]) for e in a] for a in x["d"]], q=x["q"]) for r in recs for x in r[0]["cells"]]
    ev = []
    for k, s in enumerate(c["steps"], 1):
        u = sorted((x for r in recs for x in r[k]["u"]), key=lambda x: x["g"])
        if [x["g"] for x in u] != list(idx):
            bad("a state is missing")
            return None
        if any(q(v) is None for x in u for v in x["new"]):
            bad("the state is no number after the parabolic step")
            return None
        flags = {tuple(r[k][n] for n in ("restart", "warnings", "restarts")) for r in recs}
        if len(flags) != 1:
            bad("the processes disagree on a restart")
            return None
        a, w, n = flags.pop()
        ev.append(dict(tau=ex(s["tau"]), old=[x["old"] for x in u], new=[x["new"] for x in u], dir=[x["dir"] for x in u],
                       warnings=w, restarts=n, restart=bool(a), **{"raise": s["raise"]}))
    return dict(P=dict(dim=dim, mu=ex(c["mu"]), kappa=ex(c["kappa"]), **{"lambda": ex(c["lam"])}),
                M=dict(nodes=[dict(m=n["m"], bc=n["bc"]) for n in nodes], cells=cells), tol=ex(c["tol"]), linf=c["linf"], ev=ev)


def model(ctx):
    inv = dict(spec="Spec", deadlock=False, invariants=["Momentum", "EnergyKept", "Dissipative", "Minimum", "Identity"])
    q = ctx.quick
    for name, k in [("interval", dict(DIM=1, CELLS=2, VELOCITIES={-1, 0, 2} if q else {-2, -1, 0, 1, 3}, ENERGIES={1, 2} if q else {1, 2, 5})),
                    ("square", dict(DIM=2, CELLS=1, VELOCITIES={0, 1} if q else {-1, 0, 2}, ENERGIES={1, 3}))]:
        for noslip in (False, True):
            ctx.model_ok("MCParabolic", f"{name}, {'one wall' if noslip else 'no boundary conditions'}",
                         constants=dict(k, NOSLIPS={1} if noslip else set(), VISC={("0", "0", "0"), ("1", "1/3", "2")}), **inv)


def run(ctx):
    model(ctx)
    ctx.build("pa")
    cases = [case(ctx.rng, k, ctx.quick) for k in range(24 if ctx.quick else 300)]
    tr = ctx.map(lambda c: execute(ctx, c), cases)
    keep = [k for k, t in enumerate(tr) if t]
    ctx.validate("TraceParabolic", [tr[k] for k in keep], lambda i: dict(case=cases[keep[i]]), heap="6g")
    ctx.extra["steps"] = sum(len(tr[k]["ev"]) for k in keep)
    ctx.extra["multigrid"] = sum(any(cases[k]["gmg"]) for k in keep)
    ctx.extra["reports"] = sum(e["warnings"] + e["restarts"] for k in keep for e in tr[k]["ev"])
    ctx.assumptions += ["shape functions at quadrature points are those of deal.II (FEValues); lumped masses and boundary entries are those of C11",
                        "residuals are bounded by the tolerance of the linear solver times the norm of its right hand side"]
