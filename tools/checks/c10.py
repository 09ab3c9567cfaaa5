"""C10: matrix and vector storage.  Random layouts (couplings, partitions, vectorized ranges, additional foreign rows) and
random histories of writes, exchanges and reads through every access function; the specification (Storage.tla) says what
every read yields."""
import json, os
import run as runner

WHICH = {"d1": 1, "d2": 2, "f4": 4}


def layout(rng, w, np):
    N = rng.randint(max(np * 2, 3), 5 * w + 4 * np + 2)
    cuts = sorted(rng.sample(range(1, N), np - 1)) if np > 1 else []
    lo, hi = [0] + cuts, cuts + [N]
    owner = [next(p for p in range(np) if lo[p] <= i < hi[p]) for i in range(N)]
    style = rng.choice(["chain", "random", "dense", "equal"])
    edges = set()
    for i in range(N):
        for j in range(i):
            near = {"chain": i - j <= 2, "random": rng.random() < .3, "dense": rng.random() < .8, "equal": (i - j) in (1, N - 1)}[style]
            if near:
                edges.add((j, i))
    nb = [sorted({i} | {j for j in range(N) if (min(i, j), max(i, j)) in edges}) for i in range(N)]
    # renumber within a process: blocks of w rows with the same number of columns first
    new, nint, k = {}, [], 0
    for p in range(np):
        left = list(range(lo[p], hi[p]))
        rng.shuffle(left)
        by = {}
        for i in left:
            by.setdefault(len(nb[i]), []).append(i)
        blocks = [c[b:b + w] for c in by.values() for b in range(0, len(c) - w + 1, w)]
        rng.shuffle(blocks)
        blocks = blocks[:rng.randint(0, len(blocks))] if rng.random() < .3 else blocks
        first = [i for b in blocks for i in b]
        nint.append(len(first))
        for i in first + [i for i in left if i not in first]:
            new[i] = k
            k += 1
    cols = [None] * N
    for i in range(N):
        cols[new[i]] = sorted(new[j] for j in nb[i])
    ghosts = []
    for p in range(np):
        g = {j for i in range(lo[p], hi[p]) for j in cols[i]}
        if rng.random() < .4:
            g |= {j for j in range(N) if rng.random() < .2}
        ghosts.append(sorted(j for j in g if not lo[p] <= j < hi[p]))
    # a process that is known to others knows a row itself (of any process): true for every mesh
    for p in range(np):
        if not ghosts[p] and any(lo[p] <= j < hi[p] for g in ghosts for j in g):
            ghosts[p] = [rng.choice([j for j in range(N) if not lo[p] <= j < hi[p]])]
    # ... which may make another process known to it
    for p in range(np):
        if not ghosts[p] and any(lo[p] <= j < hi[p] for g in ghosts for j in g):
            ghosts[p] = [rng.choice([j for j in range(N) if not lo[p] <= j < hi[p]])]
    if any(not ghosts[p] and any(lo[p] <= j < hi[p] for g in ghosts for j in g) for p in range(np)):
        return layout(rng, w, np)
    return dict(n=N, np=np, lo=lo, hi=hi, nint=nint, ghosts=ghosts, cols=cols)


def history(rng, L, n, w, length):
    """commands (0-based, as executed) with the information for the trace"""
    ops, wait, val = [], False, lambda k: [rng.randint(-50, 50) for _ in range(k)]
    own = lambda p: range(L["lo"][p], L["hi"][p])
    blocks = [(p, i) for p in range(L["np"]) for i in range(L["lo"][p], L["lo"][p] + L["nint"][p], w)]
    for _ in range(length):
        e = rng.choice(["w"] * 6 + ["W"] * 3 + ["read"] + ["start", "finish"] * 2 + ["exchange"] * 2 + ["d"] * 2 + ["vw"] * 3 + ["va"] * 2 +
                       ["vW", "vA"] * 2 + ["insert", "vu", "vu", "vd", "vd"])
        p = rng.randrange(L["np"])
        if e in ("start", "exchange") and wait or e == "finish" and not wait:
            continue
        if e in ("w", "vw", "va"):
            i = rng.choice(own(p))
            o = dict(e=e, p=p, i=i, v=val(n))
            if e == "w":
                o["j"] = rng.choice(L["cols"][i])
        elif e in ("W", "vW", "vA"):
            if not blocks or w == 1:
                continue
            p, i = rng.choice(blocks)
            o = dict(e=e, p=p, i=i, v=val(n * w))
            if e == "W":
                o.update(k=rng.randrange(len(L["cols"][i])), stream=rng.randrange(2))
        elif e == "read":
            o = dict(e=e, s=rng.randint(1, 40), local=rng.randrange(2))
        elif e == "insert":
            o = dict(e=e, c=rng.randrange(n), s=rng.randint(1, 40))
        else:
            o = dict(e=e, channel=rng.randrange(20))
        wait = e == "start" or wait and e != "finish"
        ops.append(o)
        if rng.random() < .15:
            ops.append(dict(e=rng.choice(["d", "vd"])))
    if wait:
        ops.append(dict(e="finish"))
    return [dict(e="d")] + ops + [dict(e="exchange"), dict(e="d"), dict(e="vu"), dict(e="vd")]


def text(o):
    a = {"w": lambda: [o["p"], o["i"], o["j"]] + o["v"], "W": lambda: [o["p"], o["i"], o["k"], o["stream"]] + o["v"],
         "read": lambda: [o["s"], o["local"]], "start": lambda: [o["channel"]], "vw": lambda: [o["p"], o["i"]] + o["v"], "insert": lambda: [o["c"], o["s"]]}
    a["va"] = a["vW"] = a["vA"] = a["vw"]
    return " ".join(map(str, [o["e"]] + a.get(o["e"], lambda: [])()))


def execute(ctx, job):
    which, n, L, ops = job
    d = ctx.dir()
    t = [f"{L['n']} {L['np']}"]
    for p in range(L["np"]):
        t.append(f"{L['lo'][p]} {L['hi'][p]} {L['nint'][p]} {len(L['ghosts'][p])} " + " ".join(map(str, L["ghosts"][p])))
    t += [f"{len(c)} " + " ".join(map(str, c)) for c in L["cols"]]
    open(os.path.join(d, "layout"), "w").write("\n".join(t) + "\n")
    open(os.path.join(d, "ops"), "w").write("\n".join(map(text, ops)) + "\n")
    r = runner.run(ctx.exes["st"], [which, n, "layout", "ops", "out"], d, np=L["np"], timeout=60)
    if r.rc:
        ctx.violation("the execution of a history ends with an error", dict(which=which, n=n, layout=L, ops=ops, err=r.err[-600:]))
        return None
    seen = [[json.loads(l) for l in open(os.path.join(d, f"out.{p}"))] for p in range(L["np"])]
    one = lambda rows: [dict(r, g=r["g"] + 1, **({"cols": [c + 1 for c in r["cols"]]} if "cols" in r else {})) for r in rows]
    k, tr, cols = 0, [], {}
    for o in ops:
        o = dict(o)
        for key in ("p", "i", "j", "c"):
            if key in o:
                o[key] += 1
        if o["e"] in ("d", "vd"):
            o["see"] = [one(s[k]) for s in seen]
            k += 1
            if o["e"] == "d":
                cols.update({r["g"]: r["cols"] for p, s in enumerate(o["see"]) for r in s if L["lo"][p] < r["g"] <= L["hi"][p]})
        if o["e"] == "W":
            o["cols"] = [cols[o["i"] + l][o["k"]] for l in range(WHICH[which])]
        tr.append(o)
    lay = dict(np=L["np"], lo=[x + 1 for x in L["lo"]], hi=L["hi"], nint=L["nint"], ghosts=[[j + 1 for j in g] for g in L["ghosts"]],
               cols=[[j + 1 for j in c] for c in L["cols"]])
    return dict(lay=lay, n=n, w=WHICH[which], ops=tr)


def model(ctx):
    ctx.model_ok("MCStorage", "exchange of packed rows, every coupling of 2+2 rows", constants=dict(N1=2, N2=2, MATCH=True, WIDTHS={1, 2, 3, 4}, COMPS={1, 2, 3},
                 LENGTHS={1, 2, 3}), spec="Spec", invariants=["Valid", "Fits", "Refined", "Memory"])
    if not ctx.quick:
        ctx.model_ok("MCStorage", "exchange of packed rows, every coupling of 3+2 rows", constants=dict(N1=3, N2=2, MATCH=True, WIDTHS={1, 2, 4, 8}, COMPS={1, 4, 5},
                     LENGTHS={1, 2, 4}), spec="Spec", invariants=["Valid", "Fits", "Refined", "Memory"], heap="8g")


def run(ctx):
    model(ctx)
    ctx.build("st")
    rng, jobs = ctx.rng, []
    for which in WHICH:
        for n in (1, 2, 3, 4):
            for np in (1, 2, 3, 4):
                for _ in range((3 if np > 1 else 2) if ctx.quick else 25):
                    L = layout(rng, WHICH[which], np)
                    jobs.append((which, n, L, history(rng, L, n, WHICH[which], 25 if ctx.quick else 60)))
    tr = ctx.map(lambda j: execute(ctx, j), jobs)
    keep = [k for k, t in enumerate(tr) if t]
    ctx.validate("TraceStorage", [tr[k] for k in keep], lambda i: dict(which=jobs[keep[i]][0], n=jobs[keep[i]][1], layout=jobs[keep[i]][2], ops=jobs[keep[i]][3]))
    ctx.extra["histories"] = len(keep)
    ctx.assumptions += ["the number of rows handled at once is that of the instruction set of the harness (SSE2): 1 and 2 with double, 4 with float numbers"]
