"""Running harness executables (serial or under mpirun) in scratch directories."""
import json, os, shutil, signal, subprocess, tempfile

ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_plm_rsh_agent="sh", OPENBLAS_NUM_THREADS="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
           HOME="/root", LC_ALL="C", PATH=os.environ.get("PATH", "/usr/bin:/bin"))


class Result:
    def __init__(self, rc, out, err, cwd, timeout=False):
        self.rc, self.out, self.err, self.cwd, self.timed_out = rc, out, err, cwd, timeout


def run(exe, args, cwd, np=1, env=None, timeout=120, threads=1):
    e = dict(ENV)
    e["OMP_NUM_THREADS"] = str(threads)
    e["PROBE_THREADS"] = str(threads)
    e["OMP_THREAD_LIMIT"] = str(max(threads, 1))
    e["DEAL_II_NUM_THREADS"] = str(threads)
    e.update(env or {})
    cmd = [exe] + [str(a) for a in args]
    if np > 1:
        # a private session directory, so that concurrent jobs cannot collide
        e["TMPDIR"] = os.path.join(cwd, ".tmp")
        os.makedirs(e["TMPDIR"], exist_ok=True)
        cmd = ["mpirun", "-np", str(np)] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return Result(p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), cwd)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Result(-9, out.decode(errors="replace"), err.decode(errors="replace"), cwd, True)


def prm_text(sections):
    """sections: dict subsection -> dict; nested by '/' in the name."""
    out = []
    for name, kv in sections.items():
        path = name.split("/")
        for d, s in enumerate(path):
            out.append("  " * d + f"subsection {s}")
        for k, v in kv.items():
            if isinstance(v, bool):
                v = "true" if v else "false"
            out.append("  " * len(path) + f"set {k} = {v}")
        for d in reversed(range(len(path))):
            out.append("  " * d + "end")
    return "\n".join(out) + "\n"


def write_prm(path, sections):
    open(path, "w").write(prm_text(sections))


def read_trace(prefix, np=1):
    r = []
    for k in range(np):
        ev = []
        p = f"{prefix}.{k}.jsonl"
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    try:
                        ev.append(json.loads(line))
                    except Exception:
                        ev.append({"e": "garbled"})
        r.append(ev)
    return r
