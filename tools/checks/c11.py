"""C11: discrete operators, index layout and boundary map."""
import json, os
import run as runner
import sim
from sim import q

BCS = ["do nothing", "slip", "no slip", "dirichlet", "dynamic", "periodic"]
RELAX = {"dG Q0": "1/2", "dG Q1": "0", "dG Q2": "1/2", "cG Q1": "0", "cG Q2": "0"}
DEGREE = {"dG Q0": 0, "dG Q1": 1, "dG Q2": 2, "cG Q1": 1, "cG Q2": 2}


def rect(rng, dim, ansatz, np=1, **kw):
    per = [rng.random() < 0.3 for _ in range(dim)]
    if dim == 1 and per[0]:
        np = 1
    bc = []
    for d in range(dim):
        bc += ["periodic"] * 2 if per[d] else [rng.choice(BCS[:5]), rng.choice(BCS[:5])]
    c = dict(dim=dim, ansatz=ansatz, np=np, geometry="rectangular domain", bc=bc, per=per,
             lower=[rng.choice([0, 0, -1]) for _ in range(dim)], commands=[],
             level={1: rng.choice([2, 3]), 2: rng.choice([1, 2]), 3: 1}[dim])
    c["upper"] = [a + rng.choice([1, 2, 0.5, 3]) for a in c["lower"]]
    if dim == 2 and ansatz in ("cG Q1", "dG Q0") and rng.random() < 0.4:
        c["level"] = 3
    if rng.random() < 0.5:
        c["subdiv"] = [rng.choice([1, 2, 3]) if dim < 3 else rng.choice([1, 2]) for _ in range(dim)]
        if c["level"] == 3 or ansatz == "dG Q2" and dim == 2:
            c["level"] = 1
            if ansatz == "dG Q2":
                c["subdiv"] = rng.choice([[1, 2], [2, 1], [1, 1]])
    shape = rng.random()
    if shape < 0.3 and dim < 3 and all(a == 0 for a in c["lower"]):
        if not ansatz.endswith("Q2"):      # (the grading bends the cells of higher order)
            c["grading"] = "trapezoid" if dim == 2 and not per[1] and not per[0] and rng.random() < 0.6 else True
    elif shape < 0.7 and dim == 2 and not any(per):      # moves boundary vertices as well
        c["distortion"] = 0.2
    if rng.random() < 0.2:
        c["commands"].append("again")
    c.update(kw)
    return c


def hanging(rng, np=1):
    c = rect(rng, 2, "cG Q1", np)
    c["commands"] = [rng.choice(["first", "again"])] if rng.random() < 0.3 else []
    c["level"] = 2 if "subdiv" not in c else 1
    x = [c["lower"][d] + (c["upper"][d] - c["lower"][d]) * rng.choice([0.3, 0.5, 1.1]) for d in range(2)]
    c["commands"].append(f"refine:{x[0]}:{x[1]}")
    return c


def other(rng, name, level, np=1, prm=None):
    return dict(dim=2, ansatz="cG Q1", np=np, geometry=name, level=level, commands=[], per=[False, False],
                prm=prm or {}, lower=[0, 0], upper=[1, 1])


def record(ctx, c):
    d = ctx.dir()
    secs = sim.sections("euler", c["dim"], c["level"], bc=c.get("bc"), lower=c["lower"], upper=c["upper"],
                        ansatz=c["ansatz"], subdiv=c.get("subdiv"), geometry=c["geometry"], grading=c.get("grading", False))
    secs = {k: v for k, v in secs.items() if k.startswith("C - ")}
    if c.get("distortion"):
        secs["C - Discretization"]["mesh distortion"] = c["distortion"]
    if c.get("prm"):
        secs["C - Discretization/" + c["geometry"]] = c["prm"]
    runner.write_prm(os.path.join(d, "a.prm"), secs)
    # commands before the setup: "first" precedes the refinement
    r = ctx.run(ctx.exes["off"], [c["dim"], "a.prm", "rec"] + c["commands"], d, np=c["np"])
    if r is None:
        return None
    ranks = []
    for k in range(c["np"]):
        rec = [json.loads(x) for x in json_lines(open(os.path.join(d, f"rec.{k}")).read())]
        if not rec or rec[-1]["e"] != "end":
            ctx.violation("the program fails on a valid input", dict(case=c))
            return None
        ranks.append(rec[-2])
    return trace(ctx, c, ranks)


def json_lines(txt):
    dec, out, i = json.JSONDecoder(), [], 0
    while i < len(txt):
        if txt[i] == "\n":
            i += 1
            continue
        _, e = dec.raw_decode(txt, i)
        out.append(txt[i:e])
        i = e
    return out


def trace(ctx, c, ranks):
    dim, k, dg = c["dim"], DEGREE[c["ansatz"]], int(c["ansatz"].startswith("dG"))
    N = ranks[0]["ndofs"]
    lo, up, per = c["lower"], c["upper"], c["per"]

    def image(x):
        key = []
        for e in range(dim):
            v = float(x[e])
            if per[e]:
                v = (v - lo[e]) / (up[e] - lo[e])
                v = v % 1.0 if v < 1 - 1e-9 else v - 1
            key.append(round(v * 1e7 + 0.1234))
        return tuple(key)

    cells = [x for r in ranks for x in r["cells"]]
    bad = lambda what: ctx.violation(what, dict(case=c))
    rows = [(p, x) for p, r in enumerate(ranks) for x in r["rows"]]
    if len({x["g"] for _, x in rows}) != len(rows):
        bad("a row has two owners")
        return None
    idx = {x["g"]: i for i, (_, x) in enumerate(rows, 1)}
    row = [idx.get(u, 0) for u in range(N)]
    pos, pts = {}, {}
    for x in cells:
        for u, y in zip(x["d"], x["x"]):
            pos[u] = image([q(v) for v in y])
    if len(pos) != N:
        bad("a degree of freedom belongs to no cell")
        return None
    pt = [u + 1 if dg else pts.setdefault(pos[u], len(pts) + 1) for u in range(N)]
    faces = {}
    dirs = {1: [[0], [1]], 2: [[0, 2], [1, 3], [0, 1], [2, 3]],
            3: [[0, 2, 4, 6], [1, 3, 5, 7], [0, 1, 4, 5], [2, 3, 6, 7], [0, 1, 2, 3], [4, 5, 6, 7]]}[dim]
    mids = lambda x, f: image([sum(q(x["v"][v][e]) for v in dirs[f]) / len(dirs[f]) for e in range(dim)])
    for ci, x in enumerate(cells, 1):
        for f in range(2 * dim):
            faces.setdefault(mids(x, f), []).append((ci, f + 1))
    out = []
    for ci, x in enumerate(cells, 1):
        nb, mid = [], []
        for f in range(2 * dim):
            o = [y for y in faces[mids(x, f)] if y != (ci, f + 1)]
            nb.append(list(o[0]) if o else [0, 0])
            if not dg and k == 1 and dim == 2 and mids(x, f) in pts:
                a, b = dirs[f]
                mid.append([x["d"][a] + 1, x["d"][b] + 1, pts[mids(x, f)]])
        out.append(dict(v=x["v"], d=[u + 1 for u in x["d"]], f=x["f"], nb=nb, mid=mid))
    lat = [[int(round(float(q(v)) * k)) + 1 if k else 1 for v in y] for y in ranks[0]["xi"]]
    get = lambda x, name, zero: x[name] if x[name] else [zero] * len(x["j"])
    R = []
    for _, x in rows:
        if any(g not in idx for g in x["j"]):
            bad("a column is no unconstrained degree of freedom")
            return None
        nums = [x["m"], x["minv"]] + x["mij"] + x["mijinv"] + x["beta"] + [v for y in x["c"] + x["ct"] for v in y]
        if any(q(v) is None for v in nums):
            bad("an entry is no number")
            return None
        R.append(dict(u=x["g"] + 1, j=[idx[g] for g in x["j"]], m=x["m"], minv=x["minv"], mij=x["mij"], c=x["c"],
                      ct=x["ct"], mijinv=get(x, "mijinv", "0"), beta=get(x, "beta", "0")))
    bmap, cbp = [[] for _ in R], [[] for _ in R]
    for r in ranks:
        for b in r["bmap"]:
            if b["g"] not in idx or b["l"] >= r["nowned"] or any(q(v) is None for v in b["n"] + [b["nm"], b["bm"]]):
                bad("a boundary entry of a degree of freedom that has none")
                return None
            bmap[idx[b["g"]] - 1].append({a: b[a] for a in ("n", "nm", "bm", "id", "x")})
        for i, col, j in r["cbp"]:
            if i not in idx or j not in idx:
                bad("a boundary pair of a degree of freedom that has none")
                return None
            cbp[idx[i] - 1].append([col + 1, idx[j]])
    rk = []
    for p, r in enumerate(ranks):
        rk.append(dict(nexport=r["nexport"], ninternal=r["ninternal"], nowned=r["nowned"], nrelevant=r["nrelevant"],
                       simd=r["simd"], relevant=[u + 1 for u in r["relevant"]], **{"import": r["import"]},
                       ghostmass=[[u + 1, m] for u, m in r["ghostmass"]],
                       rows=[dict(r=idx[x["g"]], l=x["l"]) for o, x in rows if o == p]))
    if len({r["measure"] for r in ranks}) != 1:
        bad("the processes disagree on the measure of the domain")
        return None
    relax = {"1/2": {1: "1/2", 2: "1/4", 3: "1/6"}[dim], "0": "0"}[RELAX[c["ansatz"]]]
    return dict(dim=dim, k=k, dg=dg, N=N, n=len(R), pt=pt, row=row, lat=lat, cells=out, rows=R, bmap=bmap, cbp=cbp,
                ranks=rk, measure=ranks[0]["measure"], relax=relax)


def model(ctx):
    q = ctx.quick
    ctx.model_ok("MCOffline", "meshes", constants=dict(
        SIZES={(2, 2), (3, 2)} if q else {(2, 2), (3, 2), (3, 3), (4, 3)},
        KINDS={(0, 1), (1, 1), (1, 0), (0, 2)} if q else {(0, 1), (1, 1), (1, 0), (0, 2), (1, 2)},
        MOVES={("0", "0"), ("1/4", "-1/3")}), spec="Spec", deadlock=False, invariants=["Identities"])


def cases(ctx):
    rng = ctx.rng
    n = 2 if ctx.quick else 12
    cs = []
    for _ in range(n):
        for a in ("cG Q1", "cG Q2", "dG Q0", "dG Q1", "dG Q2"):
            for np in (1, rng.choice([2, 3, 4])):
                cs.append(rect(rng, rng.choice([1, 2, 2]) if np == 1 else 2, a, np))
        cs += [hanging(rng, p) for p in (1, 2, 4)]
        cs.append(rect(rng, 3, rng.choice(["cG Q1", "dG Q0", "dG Q1"]), rng.choice([1, 2])))
    for c in cs:        # one cell per periodic direction, and cells with three sides, are out of scope
        if "subdiv" in c:
            c["level"] = max(c["level"], 1)
    cs += [other(rng, "cylinder", 0, 1), other(rng, "wall", 0, 2), other(rng, "disk", 1, 3)]
    if not ctx.quick:
        cs += [other(rng, "wall", 1, 1), other(rng, "cylinder", 1, 4), other(rng, "disk", 2, 2)]
    return cs


def run(ctx):
    model(ctx)
    ctx.build("off")
    cs = cases(ctx)
    res = ctx.map(lambda c: record(ctx, c), cs, jobs=4)
    ok = [(c, t) for c, t in zip(cs, res) if t is not None]
    ctx.validate("TraceOffline", [t for _, t in ok], lambda i: ok[i][0], constants=dict(OWN=False),
                 lenient=("periodic-boundary-mass", dict(OWN=True)), heap="6g")
    ctx.extra["rows"] = sum(t["n"] for _, t in ok)
    ctx.assumptions += ["vectors of width one", "local refinement in two dimensions with a continuous ansatz of degree one"]
