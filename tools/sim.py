"""Runs the sim_<eq> executables and merges the records of the ranks."""
import json, os
from fractions import Fraction
import run as runner

BC = {"do_nothing": 0, "periodic": 1, "slip": 2, "no_slip": 3, "dirichlet": 4, "dynamic": 5, "dirichlet_momentum": 6}


def q(s):
    """exact number of the harness -> Fraction (None for nan/inf)"""
    if s in ("nan", "inf", "-inf"):
        return None
    if "b" in s:
        m, e = s.split("b")
        return Fraction(int(m)) * Fraction(2) ** int(e)
    return Fraction(s)


def sections(eq, dim, level, bc=None, lower=None, upper=None, initial=None, ansatz="cG Q1", subdiv=None, extra=None,
             geometry="rectangular domain", scheme="erk 33", grading=False):
    names = ["left", "right", "bottom", "top", "back", "front"][:2 * dim]
    dom = {"position bottom left": ", ".join(map(str, lower or [0] * dim)),
           "position top right": ", ".join(map(str, upper or [1] * dim))}
    bc = bc or "slip"
    for k, n in enumerate(names):
        dom["boundary condition " + n] = bc if isinstance(bc, str) else bc[k]
    for k in range(dim):
        if subdiv:
            dom["subdivisions " + "xyz"[k]] = subdiv[k]
    s = {"C - Discretization": {"geometry": geometry, "mesh refinement": level, "mesh writeout": False,
                                "finite element ansatz": ansatz},
         "E - InitialValues": {"configuration": "uniform"},
         "H - TimeIntegrator": {"time stepping scheme": scheme}}
    if grading == "trapezoid":      # cells that are no parallelograms, 2D only
        dom.update({"grading push forward": "x; y*(1+0.5*x)", "grading pull back": "x; y/(1+0.5*x)"})
    elif grading:      # cells of different size
        push = [f"{x}*({u}+{x})/{2 * u}" for x, u in zip("xyz", upper)]
        pull = [f"(-{u}+sqrt({u * u}+{8 * u}*{x}))/2" for x, u in zip("xyz", upper)]
        dom.update({"grading push forward": "; ".join(push), "grading pull back": "; ".join(pull)})
    if geometry == "rectangular domain":
        s["C - Discretization/" + geometry] = dom
    for k, v in (initial or {}).items():
        s.setdefault(k, {}).update(v)
    for k, v in (extra or {}).items():
        s.setdefault(k, {}).update(v)
    return s


class Rec:
    """Merged record: nodes sorted by position (and index); events with states in that order."""


def simulate(ctx, exe, dim, secs, commands, np=1, threads=1, key=None, env=None, d=None):
    d = d or ctx.dir()
    runner.write_prm(os.path.join(d, "a.prm"), secs)
    r = ctx.run(ctx.exes[exe], [dim, "a.prm", "rec"] + commands, d, np=np, threads=threads, env=env)
    if r is None:
        return None
    ranks = []
    for k in range(np):
        txt = open(os.path.join(d, f"rec.{k}")).read()
        ranks.append(parse(txt))
    return merge(ranks)


def parse(txt):
    out, dec, i = [], json.JSONDecoder(), 0
    while True:
        while i < len(txt) and txt[i].isspace():
            i += 1
        if i >= len(txt):
            return out
        try:
            o, i = dec.raw_decode(txt, i)
        except ValueError:
            out.append({"e": "garbled"})
            return out
        out.append(o)


def merge(ranks):
    m = Rec()
    m.ranks = ranks
    m.ok = all(r and r[-1]["e"] == "end" for r in ranks)
    off = [next((e for e in r if e["e"] == "offline"), None) for r in ranks]
    if any(o is None for o in off):
        m.ok = False
        return m
    rows = [(k, i, row) for k, o in enumerate(off) for i, row in enumerate(o["rows"])]
    for k, i, row in rows:
        row["xf"] = tuple(q(x) for x in row["x"])
    # copies of a node in the cells of a discontinuous ansatz: by cell (positions agree up to roundoff only)
    near = lambda xs: tuple(round(float(q(x)) * 2 ** 30) for x in xs)
    rows.sort(key=lambda t: (near(t[2]["x"]), near(t[2]["s"]), t[2]["g"]))
    m.g2i = {row["g"]: n for n, (_, _, row) in enumerate(rows)}
    m.rows = [row for _, _, row in rows]
    m.where = [(k, i) for k, i, _ in rows]
    m.off = off
    m.n = len(rows)
    m.measure = off[0]["measure"]
    m.bmap = [b for o in off for b in o["bmap"]]
    m.cbp = [c for o in off for c in o["cbp"]]
    m.events = []
    n_ev = max(len(r) for r in ranks)
    per_node = ("U", "pre", "alpha", "old", "rows", "pc")
    for j in range(n_ev):
        es = [r[j] if j < len(r) else {"e": "missing"} for r in ranks]
        if len({e["e"] for e in es}) != 1:
            m.events.append({"e": "ranks disagree"})
            continue
        if es[0]["e"] == "offline":
            continue
        e = {}
        for f, v in es[0].items():
            if f in per_node:
                e[f] = [es[k][f][i] for k, i in m.where]
            elif f == "ghost":
                e[f] = [g for o in es for g in o[f]]
            elif f == "S":
                e[f] = [[es[k][f][s][i] for k, i in m.where] for s in range(len(v))]
            elif f in ("tau", "t", "cfl", "w", "restarts", "warnings", "error"):
                e[f] = v
                if any(x[f] != v for x in es):
                    e["differs"] = f
            else:
                e[f] = v
        m.events.append(e)
    return m


def graph(m):
    """The part of the offline record the scheme needs, with transposed gradients (1-based indices)."""
    idx = [{j: c for c, j in enumerate(row["j"])} for row in m.rows]
    g = dict(n=m.n, m=[r["m"] for r in m.rows], nbr=[], c=[], ct=[])
    for i, row in enumerate(m.rows):
        nb, c, ct = [], [], []
        for k, j in enumerate(row["j"]):
            if j not in m.g2i:
                return None
            ji = m.g2i[j]
            back = idx[ji].get(row["g"])
            if back is None:
                return None
            nb.append(ji + 1)
            c.append(row["c"][k])
            ct.append(m.rows[ji]["c"][back])
        g["nbr"].append(nb)
        g["c"].append(c)
        g["ct"].append(ct)
    return g
