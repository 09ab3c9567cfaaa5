"""C17: the driver.  Invocations with random command lines, files and contents in scratch directories; what they leave behind
must be what the specification (Driver.tla) allows."""
import json, os, re
import run as runner

EQ = ["euler", "euler aeos", "navier stokes", "scalar conservation", "shallow water", "skeleton"]
GAS = EQ[:3]
B, A, C, E = "B - Equation", "A - TimeLoop", "C - Discretization", "E - InitialValues"


def entry(s, k, v, ok=True):
    return dict(s=s, k=k, v=str(v), ok=ok)


def good(rng, eq, dim):
    """assignments declared for the equation"""
    o = [entry(A, "basename", rng.choice(["run", "a-b", "x y"])), entry(A, "final time", rng.choice(["2", "0.125", "10"])),
         entry(C, "mesh refinement", rng.choice([1, 3, 7])), entry(C, "geometry", "rectangular domain"),
         entry(E, "position", ", ".join(["0.5"] * dim)), entry(E, "perturbation", "0")]
    if eq in ("euler", "navier stokes"):
        o.append(entry(B, "gamma", "1.5"))
    if eq == "navier stokes":
        o.append(entry(B, rng.choice(["mu", "lambda", "kappa"]), "0.001"))
    if eq == "shallow water":
        o += [entry(B, "gravity", "1"), entry(E + "/soliton", "amplitude", "0.25"),
              entry(E + "/paraboloid", "eta" if dim > 1 else "paraboloid length", "0.5")]
    if eq == "scalar conservation":
        o.append(entry(B, "flux", rng.choice(["burgers", "kpp"])))
    if eq == "euler aeos":
        o += [entry(B, "equation of state", rng.choice(["van der waals", "polytropic gas"])), entry(E + "/shock front", "gamma", "1.5")]
    if eq in GAS:
        o.append(entry(E + "/shock front", "mach number", "2.5"))
    return o


def wrong(rng, eq, dim):
    """an assignment that is undeclared or invalid"""
    o = [entry("Z - Other", "key", 1), entry(A, "bassname", "x"), entry(A, "final time", "soon", False), entry(C, "mesh refinement", "x", False),
         entry(E, "configuration", "no such state", False), entry(E, "direction", ", ".join(["0"] * dim), False),
         entry(E, "direction", ", ".join(["1"] * (dim + 1)), False), entry(E + "/no such state", "radius", 1), entry("a - timeloop", "basename", "x")]
    if eq not in ("euler", "navier stokes"):
        o.append(entry(B, "gamma", "1.5"))
    if eq != "navier stokes":
        o.append(entry(B, "mu", "0.001"))
    if eq != "shallow water":
        o += [entry(B, "gravity", "1"), entry(E + "/soliton", "amplitude", "0.25")]
    else:
        o += [entry(E + "/paraboloid", "eta" if dim == 1 else "paraboloid length", "0.5"), entry(E + "/shock front", "mach number", "2")]
    if eq == "euler aeos":
        o.append(entry(B, "equation of state", "no such gas", False))
    else:
        o.append(entry(B, "equation of state", "polytropic gas"))
    if eq == "scalar conservation":
        o.append(entry(B, "flux", "no such flux", False))
    return rng.choice(o)


def content(rng, kind):
    """(assignments, density)"""
    eq, dim = rng.choice(EQ), rng.choice([1, 2, 3])
    head, density = [entry(B, "dimension", dim), entry(B, "equation", eq)], ""
    if kind == "dimension":
        head[0] = rng.choice([entry(B, "dimension", 0), entry(B, "dimension", 4), entry(B, "dimension", -1), entry(B, "dimension", "2.5", False),
                              entry(B, "dimension", "two", False)])
    elif kind == "equation":
        head[1] = entry(B, "equation", rng.choice(["eule", "Euler", "euler_aeos", "euler  aeos x", "", "shallow", "navier", "aeos"]))
    elif kind == "missing":
        del head[rng.randrange(2)]
    rng.shuffle(head)
    body = [e for e in good(rng, eq, dim) if rng.random() < 0.5]
    if eq in GAS + ["shallow water", "scalar conservation"] and rng.random() < 0.5:
        density = rng.choice(["0.5", "1.25", "2"])
        body += [entry(E, "configuration", "uniform"),
                 entry(E + "/uniform", "primitive state", density + ("" if eq == "scalar conservation" else ", 0.5" + (", 1" if eq in GAS else "")))]
    if kind == "twice":
        body += [entry(A, "basename", "first"), entry(A, "basename", "second")]
    f = body[:len(body) // 2] + head + body[len(body) // 2:] if rng.random() < 0.5 else head + body
    if kind == "wrong":
        w = wrong(rng, eq, dim)
        f = [e for e in f if (e["s"], e["k"]) != (w["s"], w["k"])]
        f.insert(rng.randrange(len(f) + 1), w)
    return f, density if kind in ("valid", "twice") else ""


KINDS = ["valid"] * 5 + ["twice", "wrong", "wrong", "wrong", "wrong", "dimension", "equation", "missing"]


def text(f):
    out, cur = [], None
    for e in f:
        if e["s"] != cur:
            out += ["end"] * (cur.count("/") + 1 if cur else 0) + ["subsection " + s for s in e["s"].split("/")]
            cur = e["s"]
        out.append(f"  set {e['k']} = {e['v']}")
    return "\n".join(["# comment"] + out + ["end"] * (cur.count("/") + 1 if cur else 0)) + "\n"


def parse(txt):
    f, path = [], []
    for l in txt.splitlines():
        l = l.split("#")[0].strip()
        if l.startswith("subsection "):
            path.append(l[11:].strip())
        elif l == "end":
            path.pop()
        elif l.startswith("set "):
            k, _, v = l[4:].partition("=")
            f.append(entry("/".join(path), k.strip(), v.strip()))
    return f


def listing(d, skip):
    out = {}
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != ".tmp"]
        for n in files + [x for x in dirs if x not in skip]:
            p = os.path.relpath(os.path.join(base, n), d)
            out[p] = open(os.path.join(base, n), "rb").read() if n in files else b""
    return out


def invoke(ctx, job):
    """One invocation; returns the trace."""
    d = ctx.dir()
    # the program under a name of its own: the default parameter file is named after it
    exe = os.path.join(ctx.dir(), job.get("name", "ryujin"))
    os.symlink(ctx.exes["drv"], exe)
    default = os.path.basename(exe) + ".prm"
    name = lambda n: default if n == "DEFAULT" else n
    files = {name(n): f for n, f in job["files"].items()}
    for n, f in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(job.get("text", {}).get(n) or text(f))
    args = [name(a) for a in job["args"]]
    before = listing(d, ())
    r = runner.run(exe, args, d, np=job.get("np", 1), timeout=120)
    after = listing(d, ())
    runs = []
    for p in range(job.get("np", 1)):
        q = after.pop(f"runs.{p}", b"").decode()
        runs.append([dict(json.loads(l), level=str(json.loads(l)["level"])) for l in q.splitlines()])
    made = [n for n in after if after[n] != before.get(n)] + ["removed " + n for n in before if n not in after]
    t = dict(cmd=dict(args=args, default=default, files=files or {"?": []}, template=job.get("template", False)), density=job.get("density", ""),
             seen=dict(failed=r.rc != 0, runs=runs, created=made, crashed=r.rc in (-11, 139, -7, 135, -8, 136) or r.timed_out))
    job["dir"] = d
    return t


def cases(ctx):
    rng, out = ctx.rng, []
    for _ in range(60 if ctx.quick else 400):
        kind = rng.choice(KINDS)
        f, density = content(rng, kind)
        g, gd = content(rng, rng.choice(KINDS))
        how = rng.choice(["named", "named", "named", "default", "both", "both", "missing", "surplus", "sub"])
        job = dict(kind=kind, np=rng.choice([1, 1, 2]), density=density)
        if how == "named":
            job.update(args=["f.prm"], files={"f.prm": f})
        elif how == "default":
            job.update(args=[], files={"DEFAULT": f, "f.prm": g})
        elif how == "both":
            job.update(args=["f.prm"], files={"f.prm": f, "DEFAULT": g})
        elif how == "missing":
            job.update(args=["g.prm"], files=rng.choice([{"f.prm": f}, {"DEFAULT": f}]), density="")
        elif how == "surplus":
            job.update(args=rng.choice([["f.prm", "f.prm"], ["f.prm", "--help"], ["f.prm", "DEFAULT", "g"]]), files={"f.prm": f, "DEFAULT": g}, density="")
        else:
            job.update(args=["sub dir/f.prm"], files={"sub dir/f.prm": f, "f.prm": g})
        out.append(job)
    for np in (1, 3):
        out.append(dict(kind="templates", args=[], files={}, np=np))
    out.append(dict(kind="templates", args=[], files={"f.prm": content(rng, "valid")[0]}))
    out.append(dict(kind="templates", args=[], files={"ryujin-2.prm": content(rng, "valid")[0]}, name="ryujin-2.1"))
    out.append(dict(kind="valid", args=[], files={"DEFAULT": content(rng, "valid")[0]}, name="ryujin-2.1"))
    for job in out:
        job.setdefault("name", rng.choice(["ryujin", "ryujin", "ryujin-2.1", "a.b.c", "the program", "run.prm"]))
    return out


def model(ctx):
    for l in (["euler", "euler aeos", "shallow water"], ["shallow water", "euler aeos", "euler"]):
        ctx.model_ok("MCDriver", "registration", constants=dict(LIST=tuple(l)), spec="Spec", invariants=["AtMostOne", "Success", "Named", "Refusal", "OnlyTemplates"],
                     properties=["Ends"], deadlock=False)


def run(ctx):
    model(ctx)
    ctx.build("drv")
    jobs = cases(ctx)
    tr = ctx.map(lambda j: invoke(ctx, j), jobs)
    d = next(j["dir"] for j in jobs if j["kind"] == "templates")
    more = []
    for n in sorted(os.listdir(d)):      # the templates are input again
        if n.endswith(".prm"):
            t = open(os.path.join(d, n)).read()
            more.append(dict(kind="template", args=[n], files={n: parse(t)}, text={n: t}, template=True))
    tr += ctx.map(lambda j: invoke(ctx, j), more)
    jobs += more
    show = lambda i: {k: v for k, v in jobs[i].items() if k not in ("dir", "text") and not (k == "files" and jobs[i].get("template"))}
    ctx.validate("TraceDriver", tr, lambda i: dict(show(i), seen=tr[i]["seen"]))
    ctx.extra["invocations"] = len(jobs)
    ctx.assumptions += ["a stand-in for the time loop records the run; equation, mesh and initial state parameters are those of the code",
                        "only the listed sections and keys are used"]
