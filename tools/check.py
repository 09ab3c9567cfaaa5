#!/usr/bin/env python3
"""Driver of the checks:  check.py <property id> [--tier quick|thorough]

Builds the harness from the working tree of /repo, runs the model checker and the
conformance runs of the property, writes evidence/<id>.json.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (build error, ...).
"""
import argparse, hashlib, importlib, json, os, random, shutil, sys, tempfile, time, traceback
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, targets, run as runner, tlc

VERIF = build.VERIF


class NoAnswer(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}/{seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"verif.{prop}.")
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known, self.extra = [], [], [], {}
        self.assumptions = []
        self.jobs = min(8, os.cpu_count() or 1)
        self.exes = {}
        self.known_list = load_known(prop)
        self.failed_runs = []

    def log(self, *a):
        print(f"[{self.prop} {time.time() - T0:6.1f}s]", *a, flush=True)

    # -- building and running ------------------------------------------------
    def build(self, *names):
        need = [n for n in names if n not in self.exes]
        if need:
            t = time.time()
            try:
                e, st = build.build({n: targets.TARGETS[n]() for n in need})
            except build.BuildError as ex:
                raise NoAnswer(f"the harness does not build:\n{ex}")
            self.exes.update(e)
            self.log(f"built {', '.join(need)}: {st['compiled']} of {st['units']} units compiled, "
                     f"{time.time() - t:.1f} s")
        return [self.exes[n] for n in names]

    def dir(self):
        return tempfile.mkdtemp(dir=self.scratch)

    def run(self, exe, args, cwd, ok=(0,), clean=True, **kw):
        """Runs a harness executable; a crash or a hang on valid input is a violation
        (after one repetition)."""
        for attempt in (1, 2):
            keep = set(os.listdir(cwd))
            r = runner.run(exe, args, cwd, **kw)
            if r.rc in ok and not r.timed_out:
                return r
            if attempt == 1 and clean:
                for f in os.listdir(cwd):
                    if f not in keep:
                        p = os.path.join(cwd, f)
                        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        prm = {}
        for f in os.listdir(cwd):
            if f.endswith(".prm") and os.path.getsize(os.path.join(cwd, f)) < 20000:
                prm[f] = open(os.path.join(cwd, f), errors="replace").read()
        self.violation("the program fails on a valid input", dict(
            exe=os.path.basename(exe), args=[str(a) for a in args], rc=r.rc, timed_out=r.timed_out,
            stderr=r.err[-2000:], stdout=r.out[-1000:], env=kw.get("env"), np=kw.get("np", 1), prm=prm))
        return None

    def map(self, f, items, jobs=None):
        with cf.ThreadPoolExecutor(jobs or max(1, self.jobs - 1)) as ex:
            return list(ex.map(f, items))

    # -- TLC -------------------------------------------------------------------
    def model(self, module, what, **kw):
        """Model checking; a violated property of the *model* is a defect of the framework
        (the model does not depend on /repo) unless the model was instantiated with data
        extracted from the code."""
        kw.setdefault("workers", self.jobs)
        try:
            r = tlc.tlc(module, **kw)
        except tlc.TLCError as e:
            raise NoAnswer(str(e))
        self.states += r.distinct
        self.transitions += r.generated
        self.log(f"TLC {module} ({what}): {r.distinct} states, depth {r.depth}, {r.wall:.1f} s, "
                 f"{r.violation or 'no violation'}")
        return r

    def model_ok(self, module, what, **kw):
        r = self.model(module, what, **kw)
        if not r.ok:
            raise NoAnswer(f"{module}: {r.violation}\n" + r.out[-3000:])
        return r

    def validate(self, module, traces, describe, constants=None, lenient=None, **kw):
        """Validates traces; every rejected one is a violation. Returns the acceptances.
        lenient: (key, constants) of a finding and of the specification that admits it and nothing else."""
        if not traces:
            return {}
        kw.setdefault("workers", self.jobs)
        try:
            acc, r = tlc.validate(module, traces, constants, **kw)
        except tlc.TLCError as e:
            raise NoAnswer(str(e))
        if not r.ok:
            raise NoAnswer(f"{module}: {r.violation}\n" + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(traces)
        rej = [i for i in range(1, len(traces) + 1) if i not in acc]
        self.log(f"TLC {module}: {len(traces) - len(rej)} of {len(traces)} traces accepted, "
                 f"{r.distinct} states, {r.wall:.1f} s")
        if rej and lenient:
            sub = [traces[i - 1] for i in rej]
            try:
                more, r = tlc.validate(module, sub, lenient[1], **kw)
            except tlc.TLCError as e:
                raise NoAnswer(str(e))
            for n, i in enumerate(rej, 1):
                if n in more:
                    d = describe(i - 1)
                    self.violation(d.get("what", "a recorded execution is not a behaviour of the specification"),
                                   dict(case=d, module=module, trace=traces[i - 1]), key=lenient[0])
            self.log(f"{len(more)} of the other traces are explained by {lenient[0]}")
            rej = [i for n, i in enumerate(rej, 1) if n not in more]
        for i in rej[:5]:
            try:
                why = tlc.explain(module, traces[i - 1], constants)[-6000:]
            except tlc.TLCError as e:
                why = str(e)[-3000:]
            d = describe(i - 1)
            self.violation(d.get("what", "a recorded execution is not a behaviour of the specification"),
                           dict(case=d, module=module, trace=traces[i - 1], tlc=why))
        if len(rej) > 5:
            self.log(f"... and {len(rej) - 5} more rejected traces")
        if len(self.samples) < 4 and acc:
            i = sorted(acc)[0]
            self.samples.append(dict(module=module, accepted=describe(i - 1)))
        return acc

    # -- verdicts ----------------------------------------------------------------
    def violation(self, what, data, key=None):
        """key: identification against the known-findings file."""
        if key is not None and key in self.known_list:
            if key not in self.known:
                self.known.append(key)
            return
        self.violations.append((what, data))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def load_known(prop):
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                kv = line[len("finding: "):].split(" ", 2)
                pid, key, text = kv[0].split("=")[1], kv[1].split("=")[1], kv[2]
                if pid == prop:
                    r[key] = text
    return r


T0 = time.time()


def once(prop, tier, seed):
    ctx = Ctx(prop, tier, seed)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        mod.run(ctx)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    return ctx


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--once", action="store_true", help="do not confirm violations")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, tier = a.prop, a.tier
    try:
        ctx = once(prop, tier, seed)
        if ctx.violations and not a.once:
            ctx.log(f"{len(ctx.violations)} violation(s); repeating the check to confirm")
            first = ctx
            ctx = once(prop, tier, seed)
            if not ctx.violations:
                ctx.log("not confirmed: " + first.violations[0][0])
                third = once(prop, tier, seed)
                if third.violations:
                    ctx = third
    except NoAnswer as e:
        print("NO ANSWER:", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("NO ANSWER: internal error", flush=True)
        sys.exit(2)
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces, samples=ctx.samples or ["none"])
    cov.update(ctx.extra)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - T0, 2), violations=len(ctx.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={prop} {ctx.known_list[k]}")
    if ctx.violations:
        rd = os.path.join(build.CACHE, "replay")
        os.makedirs(rd, exist_ok=True)
        for what, data in ctx.violations[:5]:
            s = json.dumps(dict(property=prop, what=what, seed=seed, tier=tier, data=data), indent=1, default=str)
            rp = os.path.join(rd, f"{prop}-{hashlib.sha256(s.encode()).hexdigest()[:12]}.json")
            open(rp, "w").write(s)
            print(f"  {what}: {json.dumps(data.get('case', ''), default=str)[:400]}")
            print(f"VIOLATION property={prop} replay={rp}", flush=True)
        sys.exit(1)
    ctx.log("held on everything explored")
    sys.exit(0)


if __name__ == "__main__":
    main()
