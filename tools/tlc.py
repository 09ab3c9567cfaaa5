"""Running TLC: model checking, scenario generation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAVA = os.path.join(os.path.dirname(SPEC), "_cache", "java")
CP = f"/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:{JAVA}"


def compile_java():
    """Classes that evaluate operators of the specification's value modules."""
    src = os.path.join(SPEC, "java", "Rational.java")
    out = os.path.join(JAVA, "Rational.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    tmp = tempfile.mkdtemp(prefix="java.")
    try:
        subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", tmp, src], check=True,
                       capture_output=True)
        os.makedirs(JAVA, exist_ok=True)
        for f in sorted(os.listdir(tmp)):
            shutil.copy(os.path.join(tmp, f), os.path.join(JAVA, f + ".tmp"))
            os.replace(os.path.join(JAVA, f + ".tmp"), os.path.join(JAVA, f))
        os.utime(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class TLCResult:
    pass


class TLCError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise ValueError(v)


def tlc(module, init="Init", next="Next", invariants=(), properties=(), constants=None,
        constraint=None, deadlock=True, workers=4, heap="3g", timeout=800, env=None, spec=None,
        extra=(), workdir=None, view=None):
    d = workdir or tempfile.mkdtemp(prefix="tlc.")
    compile_java()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next}"]
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {i}" for i in properties]
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        # complex constants go through a wrapper module
        wrap = [f"---- MODULE Run_{module} ----", f"EXTENDS {module}"]
        for k, v in (constants or {}).items():
            wrap.append(f"const_{k} == {tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        wrap.append("====")
        open(os.path.join(d, f"Run_{module}.tla"), "w").write("\n".join(wrap) + "\n")
        open(os.path.join(d, f"Run_{module}.cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-config", f"Run_{module}.cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [f"Run_{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout, text=True,
                               errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise TLCError(f"TLC timed out on {module}")
        r = TLCResult()
        r.out, r.rc, r.wall = p.stdout + p.stderr, p.returncode, time.time() - t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m.group(1)) if m else 0
        r.ok = p.returncode == 0
        r.violation = None
        m = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|Deadlock reached|"
                      r"Action property (\S+) is violated|The first argument of Assert evaluated to FALSE", r.out)
        if m:
            r.violation = m.group(0)
        if not r.ok and not r.violation:
            raise TLCError(f"TLC failed on {module} (rc {p.returncode}):\n" + r.out[r.out.find("Error:"):][:3000])
        return r
    finally:
        if workdir is None:
            shutil.rmtree(d, ignore_errors=True)


def prints(r, tag):
    """JSON payloads printed by PrintT("TAG " \\o ToJson(..))."""
    out = []
    for line in r.out.splitlines():
        line = line.strip()
        if line.startswith(f'"{tag} '):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return out


def validate(module, traces, constants=None, invariants=(), workers=4, heap="3g", timeout=800, init="TraceInit",
             next="TraceNext"):
    """Validates a list of traces (JSON values) against a trace spec.

    The module reads the JSON array in the file named by the environment variable TRACES
    (operator Traces), its behaviours carry the trace number in `tid` and the position in
    `pos`, and it prints "ACC <json>" with at least the trace number when all of a trace
    was explained.  Returns (accepted: {tid: [payload]}, result).
    """
    d = tempfile.mkdtemp(prefix="tlcv.")
    try:
        p = os.path.join(d, "traces.json")
        json.dump(traces, open(p, "w"))
        r = tlc(module, init=init, next=next, invariants=invariants, constants=constants,
                deadlock=False, workers=workers, heap=heap, timeout=timeout, env={"TRACES": p}, workdir=d)
        acc = {}
        for x in prints(r, "ACC"):
            acc.setdefault(x["tid"], []).append(x)
        return acc, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explain(module, trace, constants=None, init="TraceInit", next="TraceNext", timeout=300):
    """Validates a single rejected trace again, with TLC's error trace."""
    d = tempfile.mkdtemp(prefix="tlcv.")
    try:
        p = os.path.join(d, "traces.json")
        json.dump([trace], open(p, "w"))
        r = tlc(module, init=init, next=next, constants=constants, deadlock=True, workers=1,
                timeout=timeout, env={"TRACES": p}, workdir=d)
        return r.out
    finally:
        shutil.rmtree(d, ignore_errors=True)
