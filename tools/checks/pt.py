"""Runs the pt_<eq> executables (pointwise classes) on batches of commands."""
import json, os
import run as runner
import sim
from .scheme import extra_sections

EXE = {"euler": "pt_euler", "scalar": "pt_scalar", "sw": "pt_sw", "aeos": "pt_aeos"}


def x(v):
    """float -> exact token for the harness"""
    return float(v).hex()


def xs(vs):
    return " ".join(x(v) for v in vs)


def ex(v):
    """float -> exact number for the specification"""
    m, e = float(v).as_integer_ratio()
    return str(m) if e == 1 else f"{m}b-{e.bit_length() - 1}"


def exs(vs):
    return [ex(v) for v in vs]


def batch(ctx, eq, dim, extra, lines, level=2):
    """Runs commands; returns the list of records (without the end marker) or None after a failure."""
    d = ctx.dir()
    secs = sim.sections(eq, dim, level, bc="do nothing", extra=extra)
    runner.write_prm(os.path.join(d, "a.prm"), secs)
    open(os.path.join(d, "in"), "w").write("\n".join(lines) + "\n")
    r = ctx.run(ctx.exes[EXE[eq]], [dim, "a.prm", "in", "out"], d)
    if r is None:
        return None
    rec = [json.loads(l) for l in open(os.path.join(d, "out"))] if os.path.exists(os.path.join(d, "out")) else []
    if not rec or rec[-1]["e"] != "end" or len(rec) != len(lines) + 1:
        ctx.violation("the solver fails on a valid input", dict(eq=eq, dim=dim, extra=extra, line=lines[len(rec)] if
                      len(rec) < len(lines) else None, err=r.err[-500:]))
        return None
    return rec[:-1]
