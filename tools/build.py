"""Build tool of the conformance harness.

Compiles translation units of /repo/source (through thin instantiation files of
/verif/harness/inst) and of /verif/harness into executables.  Objects are cached
in /verif/_cache under the hash of their *preprocessed* text, so that only code
that really changed is compiled again.
"""
import hashlib, json, os, subprocess, sys, threading, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
H = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "_cache")
OBJ = os.path.join(CACHE, "obj")
BIN = os.path.join(CACHE, "bin")
INC = os.path.join(CACHE, "inc")
MEMO = os.path.join(CACHE, "memo")

CXX = "g++"
FLAGS = ["-w", "-DNDEBUG", "-std=c++17", "-g0", "-fopenmp", "-O2", "-pipe"]
SYS = ["/usr/lib/x86_64-linux-gnu/openmpi/include",
       "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "/usr/include/petsc", "/usr/include/trilinos",
       "/usr/include/hdf5/openmpi", "/usr/include/scotch",
       "/usr/include/suitesparse", "/usr/include/opencascade",
       "/usr/include/slepc"]

VARIANTS = {
    "base": dict(NUMBER="double", on=["DENORMALS_ARE_ZERO", "WITH_OPENMP"]),
    "async": dict(NUMBER="double", on=["DENORMALS_ARE_ZERO", "WITH_OPENMP", "ASYNC_MPI_EXCHANGE"]),
}


class BuildError(Exception):
    pass


def gen_options(variant):
    v = VARIANTS[variant]
    out = []
    for line in open(os.path.join(SRC, "compile_time_options.h.in")):
        s = line.strip()
        if s.startswith("#cmakedefine"):
            name = s.split()[1]
            line = f"#define {name}\n" if name in v["on"] else f"/* #undef {name} */\n"
        line = line.replace("@NUMBER@", v["NUMBER"]).replace("${NUMBER}", v["NUMBER"])
        out.append(line)
    d = os.path.join(INC, variant)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "compile_time_options.h")
    text = "".join(out)
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + f".{os.getpid()}.tmp"
        open(tmp, "w").write(text)
        os.replace(tmp, p)
    return d


def sha(s):
    return hashlib.sha256(s if isinstance(s, bytes) else s.encode()).hexdigest()[:24]


def file_sha(p, memo={}):
    st = os.stat(p)
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        memo[k] = sha(open(p, "rb").read())
    return memo[k]


class Unit:
    def __init__(self, src, inc=(), defs=(), variant="base", flags=()):
        self.src, self.inc, self.defs, self.variant, self.flags = src, list(inc), list(defs), variant, list(flags)

    def cmd(self):
        c = [CXX] + FLAGS + self.flags + ["-D" + d for d in self.defs]
        for i in self.inc + [os.path.join(INC, self.variant), H, SRC]:
            c += ["-I" + i]
        for i in SYS:
            c += ["-isystem", i]
        return c

    def ident(self):
        return sha(json.dumps([self.src, self.cmd()]))

    def key(self):
        """Hash of the preprocessed text; memoised over the set of files read."""
        mp = os.path.join(MEMO, self.ident() + ".json")
        if os.path.exists(mp):
            try:
                m = json.load(open(mp))
                if all(os.path.exists(f) and file_sha(f) == h for f, h in m["deps"].items()):
                    return m["key"]
            except Exception:
                pass
        dep = mp + f".{os.getpid()}.{threading.get_ident()}.d"
        r = subprocess.run(self.cmd() + ["-E", "-P", "-MMD", "-MF", dep, "-MT", "x", self.src],
                           capture_output=True)
        if r.returncode != 0:
            raise BuildError(f"preprocessing {self.src} failed:\n" + r.stderr.decode()[-4000:])
        text = open(dep).read().replace("\\\n", " ")
        os.unlink(dep)
        files = text.split(":", 1)[1].split()
        key = sha(r.stdout + b"\0" + json.dumps([FLAGS, self.flags]).encode())
        deps = {f: file_sha(f) for f in files}
        tmp = mp + f".{os.getpid()}.{threading.get_ident()}.tmp"
        json.dump(dict(deps=deps, key=key), open(tmp, "w"))
        os.replace(tmp, mp)
        return key

    def compile(self, key):
        o = os.path.join(OBJ, key + ".o")
        if os.path.exists(o):
            return o, False
        tmp = o + f".{os.getpid()}.{threading.get_ident()}.tmp.o"
        r = subprocess.run(self.cmd() + ["-c", self.src, "-o", tmp], capture_output=True)
        if r.returncode != 0:
            raise BuildError(f"compiling {self.src} failed:\n" + r.stderr.decode()[-6000:])
        os.replace(tmp, o)
        return o, True


def build(targets, jobs=None, verbose=True):
    """targets: dict name -> list of Unit. Returns dict name -> executable path."""
    for d in (OBJ, BIN, INC, MEMO):
        os.makedirs(d, exist_ok=True)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    units = {}
    for us in targets.values():
        for u in us:
            gen_options(u.variant)
            units[u.ident()] = u
    objs = {}
    stats = dict(units=len(units), compiled=0)

    def work(i):
        u = units[i]
        o, fresh = u.compile(u.key())
        return i, o, fresh

    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, o, fresh in ex.map(work, list(units)):
            objs[i] = o
            stats["compiled"] += fresh
    exes = {}

    def link(name):
        us = targets[name]
        ol = [objs[u.ident()] for u in us]
        h = sha("\n".join(ol))
        e = os.path.join(BIN, f"{name}-{h}")
        if not os.path.exists(e):
            tmp = e + f".{os.getpid()}.tmp"
            r = subprocess.run([CXX, "-fopenmp", "-o", tmp] + ol +
                               ["-Wl,--copy-dt-needed-entries", "-ldeal.ii", "-lmpi_cxx", "-lmpi", "-ltbb"],
                               capture_output=True)
            if r.returncode != 0:
                raise BuildError(f"linking {name} failed:\n" + r.stderr.decode()[-6000:])
            os.replace(tmp, e)
        return name, e

    with cf.ThreadPoolExecutor(4) as ex:
        for n, e in ex.map(link, list(targets)):
            exes[n] = e
    return exes, stats
