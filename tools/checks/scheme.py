"""Recording updates of the real solver (sim_<eq>) and turning them into traces of TraceScheme."""
import math
import sim
from sim import sections, simulate, graph

EXE = {"euler": "sim_euler", "scalar": "sim_scalar", "sw": "sim_sw", "aeos": "sim_aeos"}
BIG = "1e300"


def physics(eq, dim, opts):
    if eq == "scalar":
        poly = opts.get("poly") or [["0", "1/2"]] * dim
        return dict(eq="scalar", poly=poly)
    if eq == "sw":
        return dict(eq="sw", gravity=opts.get("gravity", "9.81"))
    if eq == "aeos":
        return dict(eq="euler" if opts.get("eos", "polytropic gas") == "polytropic gas" else "density",
                    gamma="7/5", gp=7, gq=5)
    g = opts.get("gamma", "7/5")
    p, q = (g.split("/") + ["1"])[:2]
    return dict(eq="euler", gamma=g, gp=int(p), gq=int(q))


def random_cmd(eq, dim, seed, amp=1.0, rng=None, plateau=None, opts=None):
    """A random rank-independent state; amp in [0,1] scales the variation."""
    o = opts or {}
    if eq == "scalar":
        p = [o.get("u", (-1.0, 2.0))]
    elif eq == "sw":
        p = [o.get("h", (0.2, 2.0))] + [o.get("v", (-1.5, 3.0))] * dim
    elif eq == "aeos":
        p = [o.get("rho", (0.3, 2.0))] + [o.get("v", (-1.5, 3.0))] * dim + [o.get("e", (0.5, 4.0))]
    else:
        p = [o.get("rho", (0.2, 2.0))] + [o.get("v", (-1.5, 3.0))] * dim + [o.get("p", (0.1, 3.0))]
    s = f"random:{seed}"
    for a, b in p:
        mid = a + b / 2
        s += f":{mid - amp * b / 2:.6g}:{amp * b:.6g}"
    if plateau:
        s += f":{plateau}"
    return s


def extra_sections(eq, opts):
    e = {}
    lim = {}
    if "relax" in opts:
        lim["relaxation factor"] = opts["relax"]
    if "iterations" in opts:
        lim["iterations"] = opts["iterations"]
    if lim:
        e["F - HyperbolicModule/limiter"] = lim
    if "evc" in opts:
        e["F - HyperbolicModule/indicator"] = {"evc factor": opts["evc"]}
    if eq == "scalar" and opts.get("flux"):
        e["B - Equation"] = {"flux": "function"}
        e["B - Equation/function"] = {"expression": opts["flux"]}
    if eq == "scalar" and opts.get("riemann"):
        e["F - HyperbolicModule/riemann solver"] = opts["riemann"]
    if eq == "euler":
        g = opts.get("gamma", "7/5")
        p, q = (g.split("/") + ["1"])[:2]
        e["B - Equation"] = {"gamma": repr(int(p) / int(q))}
    if eq == "sw":
        e["B - Equation"] = {"gravity": opts.get("gravity", "9.81"),
                             "manning friction coefficient": opts.get("manning", 0)}
    if eq == "aeos" and opts.get("eos"):
        e["B - Equation"] = {"equation of state": opts["eos"]}
        if opts.get("eospar"):
            e["B - Equation/" + opts["eos"]] = opts["eospar"]
    for k, v in opts.get("extra", {}).items():
        e.setdefault(k, {}).update(v)
    return e


def record(ctx, case, exe=None):
    """case: eq, dim, level, bc, ansatz, np, threads, opts, commands -> merged record (or None)"""
    eq, dim, o = case["eq"], case["dim"], case.get("opts", {})
    secs = sections(eq, dim, case["level"], bc=case.get("bc"), ansatz=case.get("ansatz", "cG Q1"),
                    lower=case.get("lower"), upper=case.get("upper"), subdiv=case.get("subdiv"),
                    extra=extra_sections(eq, o), initial=case.get("initial"), scheme=case.get("scheme", "erk 33"),
                    geometry=case.get("geometry", "rectangular domain"), grading=case.get("grading", False))
    if case.get("cfl"):
        secs["H - TimeIntegrator"].update({"cfl min": case["cfl"][0], "cfl max": case["cfl"][1]})
    if case.get("recovery"):
        secs["H - TimeIntegrator"]["cfl recovery strategy"] = case["recovery"]
    if case.get("distortion"):
        secs["C - Discretization"]["mesh distortion"] = case["distortion"]
    m = simulate(ctx, exe or EXE[eq], dim, secs, case["commands"], np=case.get("np", 1), threads=case.get("threads", 1))
    if m is None:
        return None
    if not m.ok:
        ctx.violation("the solver fails on a valid input", dict(case=case, tail=[r[-1].get("e") for r in m.ranks]))
        return None
    return m


def describe(case):
    return {k: v for k, v in case.items()}


NCOMP = {"euler": lambda d: d + 2, "aeos": lambda d: d + 2, "sw": lambda d: d + 1, "scalar": lambda d: 1}
OPEN = {"euler": ["do nothing", "slip", "no slip", "dirichlet", "dynamic"],
        "aeos": ["do nothing", "slip", "no slip", "dirichlet"],
        "sw": ["do nothing", "slip", "no slip", "dirichlet", "dynamic"],
        "scalar": ["do nothing", "dirichlet"]}
WALLS = {"euler": ["slip", "no slip"], "aeos": ["slip", "no slip"], "sw": ["slip", "no slip"], "scalar": []}
POLY = [("0.5*u*u", ["0", "1/2"]), ("u", ["1"]), ("0.3*u*u*u-0.4*u", ["-2/5", "0", "3/10"]), ("-u*u", ["0", "-1"])]


def boundaries(rng, eq, dim, kind):
    """kind: open, closed (walls and periodic), periodic"""
    bc = []
    for d in range(dim):
        k = kind
        if kind == "open":
            k = rng.choice(["open", "open", "open", "periodic"])
        elif kind == "closed":
            k = rng.choice(["walls", "periodic"]) if WALLS[eq] else "periodic"
        pool = {"open": OPEN[eq], "walls": WALLS[eq]}.get(k)
        bc += ["periodic"] * 2 if k == "periodic" else [rng.choice(pool), rng.choice(pool)]
    return bc


def base_case(rng, eq, kind, dim=None, np=None, ansatz=None, small=False, maxnp=3):
    dim = dim or rng.choice([1, 2, 2])
    ansatz = ansatz or rng.choice(["cG Q1"] * 5 + ["dG Q0", "dG Q1", "cG Q2"])
    bc = boundaries(rng, eq, dim, kind)
    if np is None:
        np = rng.choice(range(1, maxnp + 1))
    if dim == 1 and "periodic" in bc:
        np = 1
    level = {1: rng.choice([3, 4]), 2: rng.choice([2, 3]) if not small else 2}[dim]
    if ansatz != "cG Q1":
        level = {1: 3, 2: 2}[dim]
    c = dict(eq=eq, dim=dim, level=level, bc=bc, ansatz=ansatz, np=np, threads=rng.choice([1, 1, 2, 4]),
             lower=[0] * dim, upper=[rng.choice([1, 1, 2, 0.5]) for _ in range(dim)], opts={})
    if dim == 2 and rng.random() < 0.3:
        c["subdiv"] = rng.choice([[1, 1], [2, 1], [1, 2]])
    if rng.random() < 0.3 or ansatz.startswith("dG"):
        c["grading"] = True
    if eq == "scalar" and rng.random() < 0.5:
        f = [rng.choice(POLY) for _ in range(dim)]
        c["opts"]["flux"] = ";".join(x[0] for x in f)
        c["opts"]["poly"] = [x[1] for x in f]
    return c


def by_kind(m, kinds):
    return [e for e in m.events if e["e"] in kinds]


def fe_steps(m, checks, **fields):
    """Pairs every fe event with the preceding prep and lambda."""
    pre = lam = None
    out = []
    for e in m.events:
        if e["e"] == "prep":
            pre, lam = e, None
        elif e["e"] == "lambda":
            lam = e
        elif e["e"] == "fe":
            s = dict(kind="fe", checks=list(checks), U0=pre["U"], U1=e["U"], tau=e["tau"], cfl=e["cfl"],
                     lam=lam["rows"] if lam else [], error=e["error"], tol="1e-11", etol="1e-7", scale="0",
                     closed=[], comps=list(range(1, len(pre["U"][0]) + 1)))
            s["size"] = sizes(pre["U"], e["U"])
            s.update(fields)
            out.append(s)
    return out


def sizes(*Us):
    """Magnitude of every component (a power of two)."""
    r = []
    for a in range(len(Us[0][0])):
        v = [abs(float(x)) for U in Us for x in (sim.q(u[a]) for u in U) if x is not None]
        m = max(v + [1e-300])
        r.append(f"1b{math.frexp(m)[1]}")
    return r


def differing(ctx, m, case):
    """Quantities that must agree on all ranks."""
    for e in m.events:
        if "differs" in e or e["e"] == "ranks disagree":
            ctx.violation("the processes of a run disagree", dict(case=case, event=e["e"], field=e.get("differs")))
            return True
    return False
