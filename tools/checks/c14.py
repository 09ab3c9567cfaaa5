"""C14: quantities of interest."""
import os, re
from . import scheme
from .scheme import base_case, random_cmd, physics, NCOMP
import sim

EXE = {"euler": "qt_euler", "scalar": "qt_scalar", "sw": "qt_sw", "aeos": "qt_aeos"}
PRIM = {"euler": "p", "aeos": "e", "sw": "h", "scalar": "scalar"}
NAME = {"euler": lambda v: ["rho"] + v + ["p"], "aeos": lambda v: ["rho"] + v + ["e"], "sw": lambda v: ["h"] + v,
        "scalar": lambda v: ["u"]}
KINDS = {"instantaneous": "inst", "time_averaged": "tavg", "space_averaged_time_series": "series", "points": "points"}


def header(eq, dim):
    v = ["v"] if dim == 1 else [f"v_{d + 1}" for d in range(dim)]
    return "primitive state (" + ", ".join(NAME[eq](v)) + ")\t and 2nd moments"


def linear(rng, c, kind):
    """A linear form a.x - c whose zero set contains nodes: a side, a grid plane, a diagonal, or everything."""
    dim, up, q0 = c["dim"], c["upper"], c["ansatz"] == "dG Q0"
    k = rng.randrange(3)
    if k == 0 or dim == 1 and k == 1:
        d = rng.randrange(dim)
        n = (c.get("subdiv") or [1] * dim)[d] * 2 ** c["level"]
        if q0:
            w = rng.choice([0, 0, n - 1, n // 2]) if not (kind == "boundary" and dim == 1) else rng.choice([0, n - 1])
            w = up[d] * (2 * w + 1) / (2 * n)
        else:
            w = rng.choice([0, up[d]] + ([up[d] / 2] if dim > 1 or kind == "interior" else []))
        return dict(a=[("1" if e == d else "0") for e in range(dim)], c=repr(float(w)))
    if k == 1 and not q0:
        return dict(a=["1", repr(-up[0] / up[1])] + ["0"] * (dim - 2), c="0")
    return dict(a=["0"] * dim, c="0")


def expression(forms):
    def lin(f):
        s = "+".join(f"({a})*{x}" for a, x in zip(f["a"], "xyz") if a != "0") or "0.0"
        return f"(({s})-({f['c']}))"
    return "*".join(lin(f) for f in forms)


def manifolds(rng, c):
    opts = ["instantaneous", "time_averaged", "space_averaged"]
    out = []
    for i in range(rng.choice([1, 2, 3, 4])):
        kind = rng.choice(["interior", "boundary"]) if "periodic" not in c["bc"] else "interior"
        f = [linear(rng, c, kind) for _ in range(rng.choice([1, 1, 2]))]
        o = [x for x in opts if rng.random() < 0.6] or [rng.choice(opts)]
        out.append(dict(name=f"{rng.choice('abxyz')}{i}", kind=kind, forms=f, opts=o))
    return out


def case(rng, eq, **kw):
    c = base_case(rng, eq, "open", **kw)
    c["grading"] = False
    c["threads"] = 1
    for k, b in enumerate(c["bc"]):
        if b == "do nothing" and rng.random() < 0.7:
            c["bc"][k] = "periodic" if c["bc"][k ^ 1] == "periodic" else "dirichlet"
    c["clear"] = rng.random() < 0.5
    c["mans"] = manifolds(rng, c)
    c["opts"]["extra"] = {"K - Quantities": dict(
        [(k + " manifolds", ", ".join(f"{m['name']} : {expression(m['forms'])} : {' '.join(m['opts'])}"
                                      for m in c["mans"] if m["kind"] == k)) for k in ("interior", "boundary")],
        **{"clear statistics on writeout": c["clear"]})}
    cmd = []
    if c["dim"] == 2 and "periodic" not in c["bc"] and rng.random() < 0.5:
        cmd.append(f"refine:{c['upper'][0] / 2}:{c['upper'][1] / 2}")
        if c["ansatz"].startswith("dG"):
            cmd = []
    cmd += ["offline", "qprep"]
    t, cyc = rng.choice([0.0, 0.0, 0.25, 2.0]), rng.choice([0, 0, 3])
    for k in range(rng.choice([2, 4, 6])):
        cmd += [random_cmd(eq, c["dim"], rng.randrange(10 ** 6), amp=rng.choice([0.2, 0.8]), opts=c["opts"]), f"qacc:{t}"]
        if rng.random() < 0.5:
            cmd.append(f"qwrite:{t}:{cyc}")
            if rng.random() < 0.25:
                cmd.append("qprep")
            cyc += rng.choice([1, 1, 2])
        t += rng.choice([0.125, 0.1, 0.3, 1.0])
    c["commands"] = cmd
    return c


def parse(path, kind, dim, nc):
    lines = open(path).read().splitlines()
    f = dict(kind=kind, header="", rows=[])
    heads = []
    for ln in lines:
        if kind in ("inst", "tavg") and ln.startswith("# at t = "):
            f["t"] = ln[9:].strip()
        elif kind == "tavg" and ln.startswith("# averaged from t = "):
            f["from"], f["to"] = ln[len("# averaged from t = "):].split(" to t = ")
        elif ln.startswith("# rank") or ln == "#":
            continue
        elif ln.startswith("#"):
            heads.append(re.sub(r"^# (time t\t)?", "", ln))
        else:
            v = ln.split()
            if kind == "points":
                f["rows"].append(dict(x=v[:dim], w=v[dim:]))
            elif kind == "series":
                f["rows"].append(dict(t=v[0], p=v[1:1 + nc], s=v[1 + nc:]))
            else:
                f["rows"].append(dict(p=v[:nc], s=v[nc:]))
    f["header"] = heads[0] if len(heads) == 1 else f"{len(heads)} headers"
    return f


def clean(v):
    """only numbers reach the specification"""
    try:
        f = float(v)
        return v if f == f and abs(f) != float("inf") else None
    except ValueError:
        return None


def record(ctx, c):
    """runs the history in a directory with a stale series file; returns the trace"""
    d = ctx.dir()
    nc = NCOMP[c["eq"]](c["dim"])
    first = next((x.split(":")[2] for x in c["commands"] if x.startswith("qwrite")), None)
    if first is not None:
        for m in c["mans"]:
            if "space_averaged" in m["opts"]:
                open(os.path.join(d, f"base-{m['name']}-R{int(first):04d}-space_averaged_time_series.dat"), "w").write(
                    "# left over\n1.0 2.0 3.0\n")
    secs = sim.sections(c["eq"], c["dim"], c["level"], bc=c["bc"], ansatz=c["ansatz"], lower=c["lower"], upper=c["upper"],
                        subdiv=c.get("subdiv"), extra=scheme.extra_sections(c["eq"], c["opts"]))
    m = sim.simulate(ctx, EXE[c["eq"]], c["dim"], secs, c["commands"], np=c["np"], d=d)
    if m is None:
        return None
    if not m.ok:
        ctx.violation("the program fails on a valid input", dict(case=c))
        return None
    names = {x["name"]: i for i, x in enumerate(c["mans"], 1)}
    files = []
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".dat"):
            continue
        g = re.match(r"base-(\w+)-R(\d{4})-(\w+)\.dat$", fn)
        if not g or g.group(1) not in names or g.group(3) not in KINDS:
            ctx.violation("an unexpected file was written", dict(case=c, file=fn))
            return None
        f = parse(os.path.join(d, fn), KINDS[g.group(3)], c["dim"], nc)
        f.update(man=names[g.group(1)], cycle=int(g.group(2)))
        bad = [r for r in f["rows"] for k in r for v in (r[k] if isinstance(r[k], list) else [r[k]]) if clean(v) is None]
        if bad or any(clean(f.get(k, "0")) is None for k in ("t", "from", "to")):
            ctx.violation("a file contains something that is no number", dict(case=c, file=fn, row=bad[:1]))
            return None
        files.append(f)
    bmap = []
    for o in m.off:
        for b in o["bmap"]:
            if b["l"] < o["nowned"] and b["g"] in m.g2i:
                bmap.append(dict(node=m.g2i[b["g"]] + 1, x=b["x"], n=b["n"], nm=b["nm"], bm=b["bm"]))
    ev = []
    for e in m.events:
        if e["e"] == "qprep":
            ev.append(dict(e="prep"))
        elif e["e"] == "qacc":
            ev.append(dict(e="acc", t=e["t"], U=e["U"]))
        elif e["e"] == "qwrite":
            ev.append(dict(e="write", t=e["t"], U=e["U"]))
    cyc = [int(x.split(":")[2]) for x in c["commands"] if x.startswith("qwrite")]
    for e, k in zip([e for e in ev if e["e"] == "write"], cyc):
        e["cycle"] = k
    big = {"p": 10, "e": 10, "h": 5, "scalar": 5}[PRIM[c["eq"]]]
    opt = {"instantaneous": "inst", "time_averaged": "time", "space_averaged": "space"}
    return dict(dim=c["dim"], n=m.n, X=[r["x"] for r in m.rows], m=[r["m"] for r in m.rows], bmap=bmap,
                mans=[dict(name=x["name"], kind=x["kind"], forms=x["forms"], opts=[opt[o] for o in x["opts"]]) for x in c["mans"]],
                prim=PRIM[c["eq"]], gamma=physics(c["eq"], c["dim"], c["opts"]).get("gamma", "7/5"),
                clear=int(c["clear"]), header=header(c["eq"], c["dim"]), scale=[str(big)] * nc, tol="1e-12", ev=ev, files=files)


def run(ctx):
    rng = ctx.rng
    eqs = ["euler", "scalar", "sw", "aeos"]
    model(ctx)
    ctx.build(*[EXE[e] for e in eqs])
    n = 6 if ctx.quick else 60
    cases = [case(rng, e) for e in eqs for _ in range(n)]
    cases += [case(rng, e, dim=2, np=p) for e in ("euler", "scalar") for p in (2, 4)]
    res = ctx.map(lambda c: record(ctx, c), cases, jobs=4)
    ok = [(c, t) for c, t in zip(cases, res) if t is not None]
    ctx.validate("TraceQuantities", [t for _, t in ok], lambda i: ok[i][0], heap="6g")
    ctx.extra["files"] = sum(len(t["files"]) for _, t in ok)


def model(ctx):
    inv = "Complete Means Windows OneMesh Inst".split()
    f = frozenset
    base = dict(STEPS=2, VALUES={"0", "2"}, TAUS={"1", "1/2"}, WEIGHTS={"1", "3"},
                OPTS={f({"inst", "time", "space"}), f({"space"}), f({"time"})})
    ctx.model_ok("MCQuantities", "two samples", constants=base, spec="Spec", deadlock=False, invariants=inv)
    ctx.model_ok("MCQuantities", "three samples", constants=dict(base, STEPS=3, VALUES={"-1", "2"}, WEIGHTS={"3"},
                 TAUS={"1"} if ctx.quick else {"1", "1/2"}, OPTS={f({"inst", "time", "space"})}),
                 spec="Spec", deadlock=False, invariants=inv)
