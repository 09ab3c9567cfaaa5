"""C12: checkpoint and restart."""
import hashlib, os, shutil, struct, subprocess
import run as runner, sim, build
from . import loop, c01

SUFFIX = ["mesh", "mesh_fixed.data", "mesh.info", "metadata"]


def shim():
    src = os.path.join(build.VERIF, "harness", "shim", "ckpt.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(build.CACHE, "bin", f"shim-{h}.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    return so


def base(rng, **kw):
    """A problem: smooth unsteady flow, checkpoint at every tick."""
    level = kw.get("level", 3)
    bc = rng.choice([["dirichlet", "do nothing", "slip", "slip"], ["dirichlet", "do nothing", "periodic", "periodic"],
                     ["slip"] * 4])
    s = sim.sections("euler", 2, level, bc=bc, ansatz=kw.get("ansatz", "cG Q1"), scheme=kw.get("scheme", "erk 33"),
                     initial={"E - InitialValues": {"configuration": "function", "position": "0, 0"},
                              "E - InitialValues/function": {
                                  "density expression": f"1.4+0.2*sin({rng.randint(2, 6)}*x)*cos(6*y)+0.1*t",
                                  "pressure expression": "1+0.3*x", "velocity x expression": "1.0",
                                  "velocity y expression": f"{rng.choice([0.5, -0.4])}*y"}})
    s["A - TimeLoop"] = {"basename": "base", "timer granularity": kw.get("gran", "0.05"), "final time": "0.2",
                         "enforce final time": False, "enable output full": False, "enable output levelsets": False,
                         "enable checkpointing": True, "timer checkpoint multiplier": kw.get("mult", 1),
                         "enable compute error": False, "enable compute quantities": False,
                         "terminal update interval": "0", "enable mesh adaptivity": bool(kw.get("adapt"))}
    if kw.get("adapt"):
        s["I - MeshAdaptor"] = {"adaptation strategy": kw.get("strategy", "global refinement")}
        s["I - MeshAdaptor/time point selection strategies"] = {"adaptation timepoints": kw["adapt"]}
    return s


class Case:
    """A configuration with its reference generations."""

    def __init__(self, ctx, secs, gens, gran, mult=1):
        self.ctx, self.secs, self.exe = ctx, secs, ctx.exes["tl_euler"]
        self.gran, self.mult, self.gens = gran, mult, gens
        self.content = {}      # generation -> tuple of file contents
        # generation g (g = 1: tick 0) is what an undisturbed run that ends at its tick leaves behind
        for g, c in zip(range(1, gens + 1), ctx.map(self.reference, range(1, gens + 1), 4)):
            if c is not None:
                self.content[g] = c

    def final(self, g):
        return repr(0.9999999 * (g - 1) * self.gran * self.mult)

    def reference(self, g):
        d = self.ctx.dir()
        if self.run(d, g) is None:
            return None
        return self.read(d)

    def prm(self, d, g, resume=False, zero=False, extra=None):
        s = {k: dict(v) for k, v in self.secs.items()}
        s["A - TimeLoop"].update({"final time": self.final(g), "resume": resume, "resume at time zero": zero})
        for k, v in (extra or {}).items():
            s.setdefault(k, {}).update(v)
        runner.write_prm(os.path.join(d, "a.prm"), s)

    def run(self, d, g, resume=False, np=1, env=None, any_rc=False, zero=False, extra=None):
        """A run that ends with generation g."""
        self.prm(d, g, resume, zero, extra)
        e = dict(env or {})
        if any_rc:
            for _ in range(2):
                r = runner.run(self.exe, [2, "a.prm"], d, np=np, env=e, timeout=60)
                if not r.timed_out:
                    break
            return r
        return self.ctx.run(self.exe, [2, "a.prm"], d, np=np, env=e, clean=False)

    @staticmethod
    def read(d, bak=""):
        out = []
        for s in SUFFIX:
            p = os.path.join(d, f"base-checkpoint.{s}{bak}")
            out.append(open(p, "rb").read() if os.path.exists(p) else None)
        return tuple(out)

    def abstract(self, c):
        """Contents -> sets of generations: [0] absent, [] partial."""
        return [[0] if x is None else [g for g, v in self.content.items() if v[k] == x or k == 1 and close(v[k], x)]
                for k, x in enumerate(c)]

    def disk(self, d, kind="disk"):
        return dict(e=kind, main=self.abstract(self.read(d)), back=self.abstract(self.read(d, "~")))

    def whole(self, a):
        return sorted(set.intersection(*[set(x) for x in a]) - {0})

    def resume_once(self, src, np=1):
        """Resumes from the files in src in a fresh directory; the run ends at its first boundary."""
        d = self.ctx.dir()
        for f in os.listdir(src):
            if "checkpoint" in f:
                shutil.copy(os.path.join(src, f), os.path.join(d, f))
        before = self.read(d), self.read(d, "~")
        self.prm(d, 1, True)
        r = self.run(d, 1, True, np=np, any_rc=True)
        if r.rc != 0:
            same = before == (self.read(d), self.read(d, "~"))
            shutil.rmtree(d, ignore_errors=True)
            return dict(e="resume", gens=[], untouched=same)
        a = self.abstract(self.read(d))
        g = self.whole(a)
        shutil.rmtree(d, ignore_errors=True)
        # a result that is no generation at all is reported as generation -1
        return dict(e="resume", gens=g or [-1], untouched=True)


def close(a, b):
    """Equal up to rounding: boundary conditions are applied once more at every output, and projecting
    the momentum on a normal such as (1, 1e-17) twice is not exactly the same as once."""
    if a is None or b is None or len(a) != len(b) or a[:8] != b[:8]:
        return False
    return all(abs(x - y) < 1e-13 for u, v in zip(values(a), values(b)) for x, y in zip(u, v))


def key(e):
    return repr((e["main"], e["back"]))


def snapshots(ctx, case):
    """The disk after every single file operation, and what a run resumed from there does."""
    d = ctx.dir()
    snap = os.path.join(d, "snap")
    os.mkdir(snap)
    case.prm(d, case.gens)
    r = case.run(d, case.gens, env={"LD_PRELOAD": shim(), "SHIM_SNAP": snap})
    if r is None:
        return None
    ev, seen, todo = [], {}, []
    names = sorted(os.listdir(snap))
    for n in names:
        e = case.disk(os.path.join(snap, n))
        if ev and key(ev[-1][0]) == key(e):
            continue
        if key(e) not in seen:
            seen[key(e)] = n
            todo.append(n)
        ev.append((e, n))
    res = dict(zip(todo, ctx.map(lambda n: case.resume_once(os.path.join(snap, n)), todo)))
    out, done = [], set()
    for e, n in ev:
        out.append(e)
        if n in res:
            out.append(res[n])
    out.append(dict(e="final", gen=case.gens, gens=case.whole(case.disk(d)["main"])))
    shutil.rmtree(d, ignore_errors=True)
    return dict(events=out, _n=len(ev), _ops=len(names))


def recover(d, how):
    """Puts the backup (or what is missing from it) under the main names."""
    for s in SUFFIX:
        m, b = (os.path.join(d, f"base-checkpoint.{s}{x}") for x in ("", "~"))
        if os.path.exists(b) and (how[0] == "back" or not os.path.exists(m)):
            (os.rename if how[1] == "move" else shutil.copy)(b, m)


def history(ctx, case, script, np=(1,)):
    """Several crashes: script = list of ("run"|"resume", crash at operation n or None)."""
    d = ctx.dir()
    ev = []
    for k, (mode, n) in enumerate(script):
        p = np[k % len(np)]
        if mode == "resume":
            for how in [None, ("merged", "move"), ("merged", "copy"), ("back", "copy")]:
                t = ctx.dir()
                for f in os.listdir(d):
                    if "checkpoint" in f:
                        shutil.copy(os.path.join(d, f), os.path.join(t, f))
                if how:
                    recover(t, how)
                e = case.disk(t)
                if case.whole(e["main"]):
                    break
                shutil.rmtree(t, ignore_errors=True)
            else:
                mode = "run"     # nothing has ever been completed: start again
            if mode == "resume":
                d = t
                if how:
                    ev.append(dict(e, e="fix"))
        env = {"LD_PRELOAD": shim(), "SHIM_KILL": str(n), "SHIM_RANK": "0"} if n is not None else None
        if n is None:
            r = case.run(d, case.gens, mode == "resume", np=p, env=env)
            if r is None:
                return None
            ev.append(case.disk(d))
            ev.append(dict(e="final", gen=case.gens, gens=case.whole(case.disk(d)["main"])))
        else:
            case.run(d, case.gens, mode == "resume", np=p, env=env, any_rc=True)
            ev.append(case.disk(d))
    shutil.rmtree(d, ignore_errors=True)
    return dict(events=ev)


def values(fixed):
    """The doubles of the attached data, cell by cell."""
    size = struct.unpack("<II", fixed[:8])[1]      # cell status, then the attached data
    body = fixed[8:]
    cells = len(body) // size
    k = (size - 4) // 8
    return [struct.unpack(f"<{k}d", body[i * size + 4:i * size + 4 + 8 * k]) for i in range(cells)]


def across(ctx, case, np1, np2, g1):
    """Written with np1 processes, resumed with np2; compared with the undisturbed serial run."""
    d = ctx.dir()
    if case.run(d, g1, np=np1) is None or case.run(d, case.gens, True, np=np2) is None:
        return None
    c, ref = case.read(d), case.content[case.gens]
    shutil.rmtree(d, ignore_errors=True)
    same = c[2] is not None and len(c[1]) == len(ref[1])
    dist = 10 ** 6
    if same:
        a, b = values(c[1]), values(ref[1])
        m = max(abs(x - y) for u, v in zip(a, b) for x, y in zip(u, v))
        dist = int(min(1e6, m / 1e-12))
        # time and tick of the last checkpoint
        same = c[3][-4:] == ref[3][-4:] and abs(struct.unpack("<d", c[3][-12:-4])[0] -
                                                 struct.unpack("<d", ref[3][-12:-4])[0]) < 1e-9
    return dict(events=[dict(e="near", same=bool(same), dist=dist, tol=1000)])


def disk_part(ctx):
    rng = ctx.rng
    confs = [dict(), dict(adapt="0.03, 0.24", gran=0.1), dict(scheme="ssprk 33", mult=2, gran=0.03)]
    if not ctx.quick:
        confs += [dict(ansatz="cG Q2", level=2), dict(ansatz="dG Q1", level=2),
                  dict(adapt="0.12", gran=0.1, strategy="random adaptation"), dict(level=4), dict(scheme="erk 11", gran=0.02)]
    traces, cases = [], []

    def add(t, what):
        if t is not None:
            traces.append(t)
            cases.append(what)

    stats = dict(operations=0, disk_states=0)
    for kw in confs:
        secs = base(rng, **{k: (repr(v) if k == "gran" else v) for k, v in kw.items()})
        case = Case(ctx, secs, 4, kw.get("gran", 0.05), kw.get("mult", 1))
        if len(case.content) < 4:
            return traces, cases, stats
        t = snapshots(ctx, case)
        ops = 0
        if t:
            ops = t.pop("_ops")
            stats["operations"] += ops
            stats["disk_states"] += t.pop("_n")
            add(t, dict(what="a crash during a checkpoint leaves no complete checkpoint, or a resumed run continues "
                             "from something else", conf=kw))
        h = []
        for _ in range(6 if ctx.quick else 40):
            sc = [("run", rng.randrange(1, max(2, ops)))]
            for _ in range(rng.choice([0, 1, 1, 2])):
                sc.append((rng.choice(["resume", "resume", "run"]), rng.randrange(1, 60)))
            h.append(sc + [("resume", None)])
        # the remains of an interrupted checkpoint must not replace the backup
        h.append([("run", max(1, ops - 3)), ("run", 20), ("resume", None)])
        h.append([("run", max(1, ops - 25)), ("run", 1), ("resume", None)])
        for sc, t in zip(h, ctx.map(lambda sc: history(ctx, case, sc), h)):
            add(t, dict(what="a history of crashes and resumes loses the checkpoints or the continuation differs",
                        conf=kw, history=sc))
        j = [(1, 2, 2), (2, 1, 3), (3, 2, 2)] if ctx.quick else \
            [(a, b, g) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4) if a * b > 1 for g in (2, 3)]
        if kw.get("strategy"):
            j = []
        for x, t in zip(j, ctx.map(lambda x: across(ctx, case, *x), j, 3)):
            add(t, dict(what="a run resumed on another number of processes differs from the uninterrupted one",
                        conf=kw, processes=x[:2], resumed_at=x[2]))
    return traces, cases, stats


def random_chain(rng):
    while True:
        j = c01.random_job(rng, 2, 1)
        if not c01.coincident(j):
            break
    c = dict(j["conf"], eckpt=True, mckpt=rng.choice([1, 1, 2]), enforce=rng.random() < 0.3)
    mean = sum(j["table"]) / len(j["table"])
    if rng.random() < 0.7:
        c["eadapt"] = True
        c["tps"] = sorted(3600 * rng.randint(0, max(2, c["tfinal"] // 3600)) + rng.choice([113, 557, 1103, 1801])
                          for _ in range(rng.choice([1, 2, 3])))
    segs = []
    n = rng.choice([2, 2, 3])
    zero = False
    for k in range(n):
        s = dict(conf=dict(c), np=rng.choice([1, 1, 2, 3]))
        if k < n - 1:
            if rng.random() < 0.5:
                s["exit"] = rng.randint(2, 40)
            else:
                # ends by itself; the next one continues to a later time
                s["conf"]["tfinal"] = max(1, c["tfinal"] * (k + 1) // n)
                s["conf"]["enforce"] = False
        if k > 0 and not zero and rng.random() < 0.2:
            s["zero"] = zero = True
        segs.append(s)
    if zero:
        # the clock of the state and the time differ from then on; times coincide nowhere
        for s in segs:
            s["conf"]["enforce"] = False
    return dict(segs=segs, table=j["table"], interval=j["interval"], level=2)


def run(ctx):
    ctx.build("tl_euler", "probe")
    ctx.model_ok("MCCheckpoint", "crash after every operation", spec="Spec", invariants=["Recoverable", "NoMixture"],
                 constants=dict(MaxGen=3 if ctx.quick else 4, MaxCrash=2 if ctx.quick else 4, Guarded=True,
                                MetaAtomic=True, Order=["info", "fixed", "mesh", "meta"],
                                Backup={"mesh", "fixed", "info", "meta"}, Fresh=True))
    ctx.model_ok("MCRestart", "processes ended anywhere and resumed", spec="Spec",
                 invariants=["SameSteps", "SameOutputs", "Ticks", "Prompt", "FinalTime"],
                 constants=dict(MaxResume=1 if ctx.quick else 2, Lose=False, Thorough=not ctx.quick))
    jobs = [random_chain(ctx.rng) for _ in range(40 if ctx.quick else 400)]
    tr = [t for t in ctx.map(lambda j: loop.chain(ctx, j), jobs) if t is not None]
    cases = [t.pop("_case") for t in tr]
    ctx.log(f"{len(tr)} chains of processes, {sum(e['e'] == 'resume' for t in tr for e in t['events'])} resumed")
    ctx.validate("TraceTimeLoop", tr, lambda i: cases[i], dict(LosePending=False),
                 lenient=("pending-adaptation", dict(LosePending=True)))
    tr, cases, stats = disk_part(ctx)
    ctx.log(f"{stats['operations']} file operations, {stats['disk_states']} disk states, {len(tr)} histories")
    ctx.validate("TraceCheckpoint", tr, lambda i: cases[i])
    ctx.extra.update(stats)
