"""C16: initial states.  Every selectable configuration, evaluated at points and times of its own frame, is compared with
the specification (Initial.tla); the exact solutions are differenced and located at their fronts."""
import json, math, os
import run as runner
import sim
from .c18 import physics
from .pt import x as hx, xs, ex, exs

EXE = {"euler": "ini_euler", "aeos": "ini_aeos", "sw": "ini_sw", "scalar": "ini_scalar"}
DIRS = {1: [(1,)], 2: [(1, 0), (1, 0), (3, 4), (-1, 0), (1, -2), (0, 1), (-2, -3)], 3: [(1, 0, 0), (1, 2, 2), (2, -1, 2), (-1, 0, 0), (1, 0, 1)]}
AEOS = {"noble abel stiffened gas", "van der waals", "jones wilkins lee"}


class Job:
    """Commands for the evaluator, and the items made of their answers."""

    def __init__(self, rng, eq, dim, name, plane=True):
        """plane: the configuration depends on more than the first coordinate of the frame"""
        self.rng, self.eq, self.dim, self.name = rng, eq, dim, name
        self.lines, self.make, self.par, self.c = [], [], {}, {}
        self.P, self.extra, self.f = physics(eq, rng, dim)
        self.P["gamma"] = self.P["gamma"] if eq == "euler" else ex(self.f["gamma"])
        self.dir = rng.choice([(1, 0, 0)] if plane and dim == 3 else DIRS[dim])
        self.pos = [rng.choice([0.0, 0.5, -1.25]) for _ in range(dim)]
        self.pert = 0.0

    def front_frame(self):
        self.dir = (1,) + (0,) * (self.dim - 1)
        return self

    def polytropic(self, gamma=None, b=0.0):
        """a gas for which the configuration is exact"""
        g = gamma or self.rng.choice([1.4, 5 / 3, 1.1, 2.0])
        self.f = dict(self.f, gamma=g)
        self.P["gamma"] = ex(g)
        if self.eq == "euler":
            self.extra = {"B - Equation": {"gamma": repr(g)}}
        else:
            name = "noble abel stiffened gas" if b else "polytropic gas"
            self.P["L"] = dict(name=name, gamma=ex(g), a="0", b=ex(b), q="0", pinf="0", e0="0", A="0", B="0", R1="1", R2="1", omega="1",
                               rho0="1", cv="1")
            e = {"gamma": repr(g)}
            if b:
                e.update({"covolume b": repr(b), "reference specific internal energy": 0, "reference pressure": 0})
            self.extra = {"B - Equation": {"equation of state": name},
                          "B - Equation/" + name: e}
            self.par["gamma"] = repr(g)
        return self

    def to_x(self, y):
        n = math.sqrt(sum(v * v for v in self.dir))
        d = [v / n for v in self.dir]
        if self.dim == 1:
            return [self.pos[0] + y[0]]
        if self.dim == 2:
            return [self.pos[0] + y[0] * d[0] - y[1] * d[1], self.pos[1] + y[0] * d[1] + y[1] * d[0]]
        a = min(range(3), key=lambda k: abs(d[k]))
        e = [(1.0 if k == a else 0.0) - d[a] * d[k] for k in range(3)]
        m = math.sqrt(sum(v * v for v in e))
        e = [v / m for v in e]
        f = [d[1] * e[2] - d[2] * e[1], d[2] * e[0] - d[0] * e[2], d[0] * e[1] - d[1] * e[0]]
        if self.dir == (1, 0, 0):
            e, f = [0, 1, 0], [0, 0, 1]
        return [self.pos[k] + y[0] * d[k] + y[1] * e[k] + y[2] * f[k] for k in range(3)]

    def ask(self, line):
        self.lines.append(line)
        return len(self.lines) - 1

    def at(self, X, t):
        return self.ask("at " + xs([t] + list(X)))

    def item(self, e, tol, X, t, **kw):
        return dict(e=e, name=self.name, c=self.c, x=exs(X), t=ex(t), dir=[str(v) for v in self.dir], pos=exs(self.pos), tol=tol, **kw)

    def value(self, y, t, tol="1e-11", kind="value", **kw):
        X = self.to_x(y)
        k = self.at(X, t)
        self.make.append(lambda R: self.item(kind, tol, X, t, U=R[k]["U"], z=R[k]["z"], **kw))

    def pde(self, y, t, h=1e-3, k=1e-3, tol="1e-6"):
        X = self.to_x(y)
        T = [self.at(X, t + j * k) for j in range(-2, 3)]
        S = [[self.at([v + (j * h if a == d else 0) for a, v in enumerate(X)], t) for j in range(-2, 3)] for d in range(self.dim)]
        self.make.append(lambda R: dict(self.item("pde", tol, X, t), T=[R[j]["U"] for j in T], X=[[R[j]["U"] for j in s] for s in S],
                                        Z=[[(R[j]["z"] or ["0"])[0] for j in s] for s in S], k=ex(k), h=ex(h)))

    def front(self, at, times, speed, tol="1e-9"):
        """a front on the line through the position, searched around the distances at[k] at the times times[k]"""
        q = [self.ask(f"front {hx(t)} {hx(self.pos[0] + lo)} {hx(self.pos[0] + hi)} {xs(self.pos[1:])}")
             for t, (lo, hi) in zip(times, at)]
        self.make.append(lambda R: dict(e="front", x=[R[k]["x"] for k in q], t=exs(times), L=R[q[0]]["L"], R=R[q[0]]["R"], n=self.dim,
                                        speed=speed, tol=tol))


def pts(rng, dim, n, r=2.0):
    return [[rng.uniform(-r, r) for _ in range(dim)] for _ in range(n)]


def prim(rng, k=3):
    return [rng.uniform(0.2, 1.5), rng.choice([0.0, rng.uniform(-3, 3)])] + [rng.uniform(-2, 2)] * (k - 3) + [rng.uniform(0.1, 10)]


def wat(rng):
    return [rng.uniform(0.1, 4), rng.choice([0.0, rng.uniform(-3, 3)])]


def s_(v):
    return ", ".join(repr(float(a)) for a in v)


def r1(rng, lo, hi):
    return round(rng.uniform(lo, hi), 3)


def polynomial(rng, base, dim, v):
    c = [base] + [r1(rng, -1, 1) * base / 40 for _ in range(4)]
    if dim != 2:
        c[2] = 0.0
    e = f"{c[0]!r} + {c[1]!r}*x" + (f" + {c[2]!r}*y" if dim == 2 else "") + f" + {c[3]!r}*t + {c[4]!r}*x*x"
    return exs(c), e


# --- gas dynamics ---------------------------------------------------------------------------------------------------
def gas(rng, eq, dim, name, n):
    j = Job(rng, eq, dim, name, plane=name in ("isentropic vortex", "four state contrast", "astro jet", "icf like"))
    T = lambda: rng.choice([0.0, rng.uniform(0, 3)])
    own = eq == "aeos" and j.f["name"] in AEOS
    tol = "1e-8" if own else "1e-11"
    u = lambda k=3: prim(rng, k)
    if name == "uniform":
        w = u()
        j.par, j.c = {"primitive state": s_(w)}, {"W": exs(w)}
        [j.value(y, T(), tol) for y in pts(rng, dim, n)]
    elif name in ("contrast", "three state contrast", "radial contrast"):
        L, M, R = u(), u(), u()
        if name == "contrast":
            j.par = {"primitive state left": s_(L), "primitive state right": s_(R)}
            j.c = dict(L=exs(L), R=exs(R))
        elif name == "three state contrast":
            a, b = r1(rng, -1, 0.5), r1(rng, 0.2, 1)
            j.par = {"primitive state left": s_(L), "primitive state middle": s_(M), "primitive state right": s_(R),
                     "left region length": a, "middle region length": b}
            j.c = dict(L=exs(L), M=exs(M), R=exs(R), left=ex(a), middle=ex(b))
        else:
            r = r1(rng, 0.3, 2)
            j.par = {"primitive state inner": s_(L), "primitive state outer": s_(R), "radius": r}
            j.c = dict(L=exs(L), R=exs(R), radius=ex(r))
        [j.value(y, T(), tol) for y in pts(rng, dim, n + 3)]
    elif name == "four state contrast":
        W = {k: u(4) for k in ("bottom left", "bottom right", "top left", "top right")}
        j.par = {"primitive state " + k: s_(w) for k, w in W.items()}
        j.c = {a: exs(W[k]) for a, k in (("bl", "bottom left"), ("br", "bottom right"), ("tl", "top left"), ("tr", "top right"))}
        [j.value([sx * rng.uniform(0.01, 2), sy * rng.uniform(0.01, 2)] + [0.3] * (dim - 2), T(), tol) for sx in (-1, 1) for sy in (-1, 1)]
    elif name == "astro jet":
        if eq == "aeos":
            j.polytropic()
        L, R, w = u(), u(), r1(rng, 0.1, 0.5)
        j.par.update({"primitive jet state": s_(L), "primitive ambient right": s_(R), "jet width": w})
        j.c = dict(L=exs(L), R=exs(R), width=ex(w))
        for y in pts(rng, dim, n) + [[-0.1, 0.9 * w, 0], [-0.1, -1.1 * w, 0], [0.1, 0.5 * w, 0], [-1.0, -0.5 * w, 0]]:
            j.value(y[:dim], T(), tol)
    elif name == "smooth wave":
        rho, p, M = r1(rng, 0.3, 2), r1(rng, 0.2, 4), r1(rng, -2, 3)
        if own:
            rho = 0.2
        j.par = {"reference density": rho, "reference pressure": p, "mach number": M}
        j.c = dict(rho=ex(rho), p=ex(p), mach=ex(M))
        for i in range(n):
            t = rng.uniform(0, 2)
            y = [M * t + (rng.uniform(0.12, 0.28) if i % 3 else rng.uniform(-1, 1))] + [rng.uniform(-1, 1) for _ in range(dim - 1)]
            j.value(y, t, tol)
            if i % 3:
                j.pde(y, t, 1e-3, 1e-3, "1e-5")
    elif name == "shock front":
        b = rng.choice([0.0, 0.25, 0.125]) if eq == "aeos" else 0.0
        j.polytropic(b=b)
        R, M = u(), rng.choice([1.5, 2.0, 5.0, 0.5 + r1(rng, 1, 3)])
        c = math.sqrt(j.f["gamma"] * R[2] / (R[0] * (1 - b * R[0])))
        M += max(0.0, R[1] / c)
        j.par.update({"primitive state": s_(R), "mach number": repr(M)})
        j.c = dict(R=exs(R), mach=ex(M))
        S = M * c
        fr = rng.random() < 0.6
        if fr:
            j.front_frame()
        for y in pts(rng, dim, n):
            t = T()
            j.value([S * t + y[0]] + y[1:], t)
        if fr:
            t = [rng.uniform(0, 1), rng.uniform(1, 2)]
            j.front([(S * v - 1, S * v + 1.3) for v in t], t, [ex(S)])
    elif name == "isentropic vortex":
        j.polytropic(rng.choice([1.4, 5 / 3, 2.0]))
        M, b = r1(rng, -2, 2), r1(rng, 1, 4)
        j.par.update({"mach number": M, "beta": b})
        j.c = dict(mach=ex(M), beta=ex(b))
        for y in pts(rng, dim, n, 1.5):
            t = T()
            y[0] += M * t
            j.value(y, t)
            j.pde(y, t, 2e-3, 2e-3)
    elif name == "leblanc":
        j.polytropic(5 / 3)
        j.par = {}
        if rng.random() < 0.6:
            j.front_frame()
        fan = [(-0.3, 0.3)]
        for t in (0.0, rng.uniform(0.1, 2)):
            for s in (rng.uniform(-2, -0.34), rng.uniform(0.84, 2)):
                j.value([s * t if t else (s if s < 0 else s)] + [rng.uniform(-1, 1)] * (dim - 1), t)
        for lo, hi in fan * 3:
            t = rng.uniform(0.5, 2)
            j.pde([rng.uniform(lo, hi) * t] + [rng.uniform(-1, 1)] * (dim - 1), t, 2e-3 * t, 2e-3 * t, "1e-5")
        t = [rng.uniform(0.5, 1), rng.uniform(1, 3)]
        if j.dir != (1,) + (0,) * (dim - 1):
            return j
        j.front([(0.55 * v, 0.7 * v) for v in t], t, [], "1e-6")
        j.front([(0.7 * v, 1.0 * v) for v in t], t, [], "1e-6")
    elif name == "noh":
        j.polytropic()
        j.front_frame()
        rho, w, p = r1(rng, 0.5, 2), r1(rng, 0.5, 3), 1e-12
        j.par.update({"reference density": rho, "reference velocity magnitude": w, "reference pressure": p})
        j.c = dict(rho=ex(rho), u=ex(w), p=ex(p))
        for y in pts(rng, dim, n):
            t = rng.choice([0.0, rng.uniform(0.1, 2)])
            j.value(y, t)
            r = math.sqrt(sum(v * v for v in y))
            if r > 0.5 * w * (j.f["gamma"] - 1) * t + 0.5 and r > 0.7:
                j.pde(y, max(t, 0.1), 2e-3 * r, 2e-3, "1e-6")
        s = 0.5 * w * (j.f["gamma"] - 1)
        t = [rng.uniform(0.5, 1), rng.uniform(1, 2)]
        j.front([(0.1 * s * v, 1.5 * s * v) for v in t], t, [ex(s)], "1e-8")
    elif name == "icf like":
        b = rng.choice([0.0, 0.25]) if eq == "aeos" else 0.0
        j.polytropic(b=b)
        L, R, M = u(), u(), r1(rng, 1.5, 4)
        R[1] = 0.0
        q = {"interface radius": 1.0, "number of modes": rng.choice([2, 4, 8]), "amplitude": r1(rng, 0, 0.05), "mach number": M, "shock radius": 1.25}
        j.par.update({"primitive state inside": s_(L), "primitive state outside": s_(R), **q})
        j.c = dict(L=exs(L), R=exs(R), radius="1", modes=q["number of modes"], amplitude=ex(q["amplitude"]), mach=ex(M), shock="5/4")
        for i in range(n + 4):
            r = rng.choice([rng.uniform(0.2, 0.9), rng.uniform(0.92, 1.08), rng.uniform(1.3, 2), rng.uniform(1.06, 1.2)])
            v = [rng.gauss(0, 1) for _ in range(dim)]
            m = math.sqrt(sum(a * a for a in v))
            j.value([r * a / m for a in v], T())
    elif name == "function":
        if own and j.f["name"] == "jones wilkins lee":
            j.polytropic()
            j.par = {}
        keys = [("rho", "density expression", 1.0), ("u", "velocity x expression", 0.5), ("v", "velocity y expression", -0.5),
                ("p", "pressure expression", 2.0)]
        for k, key, base in keys[:2] + (keys[2:] if dim > 1 else keys[3:]):
            j.c[k], j.par[key] = polynomial(rng, base, dim, k)
        if dim == 3:
            j.c["v"], j.par["velocity y expression"] = ["0"] * 5, "0"
            j.par["velocity z expression"] = "0"
        j.c.setdefault("v", ["0"] * 5)
        [j.value(y, T(), tol) for y in pts(rng, dim, n)]
    elif name == "rarefaction":
        j.polytropic(rng.choice([1.4, 5 / 3]))
        g = j.f["gamma"]
        c0 = math.sqrt(g / 3)
        cr = c0 * (1 / 6) ** ((g - 1) / 2)
        ur = c0 + 2 / (g - 1) * (c0 - cr)
        for i in range(n):
            d = rng.uniform(0, 1)
            t = d + 0.2 / (ur - c0)
            s = rng.choice([rng.uniform(-1, -0.1), rng.uniform(0.05, 0.95) * (ur - cr), rng.uniform(0.05, 0.95) * (ur - cr), ur - cr + rng.uniform(0.1, 1)])
            y = [s * t] + [rng.uniform(-1, 1) for _ in range(dim - 1)]
            j.value(y, d, "1e-11", "fan")
            if 0 < s < ur - cr:
                h = 0.01 * min(s, ur - cr - s) * t
                j.pde(y, d, h, h, "1e-5")
    elif name == "becker solution":
        j.polytropic()
        g = j.f["gamma"]
        vl = rng.uniform(0.5, 2)
        vr = vl * rng.uniform((g - 1) / (g + 1) + 0.05, 0.7)
        V, mu, rho = r1(rng, -0.5, 0.5), rng.choice([0.01, 0.05]), r1(rng, 0.5, 2)
        j.par.update({"velocity galilean frame": V, "velocity left": repr(vl), "velocity right": repr(vr), "density left": rho, "mu": mu})
        j.c = dict(V=ex(V), vl=ex(vl), vr=ex(vr), mu=ex(mu), rho=ex(rho))
        w = 2 * g / (g + 1) * mu / (rho * vl * 0.75) * vl / (vl - vr)
        j.front_frame()
        for i in range(n):
            t = T()
            y = [V * t + rng.uniform(-3, 3) * w] + [rng.uniform(-1, 1) for _ in range(dim - 1)]
            X = j.to_x(y)
            h = 0.02 * w
            q = [j.at([X[0] + a * h] + X[1:], t) for a in range(-2, 3)]
            j.make.append(lambda R, X=X, t=t, h=h, q=q: dict(j.item("viscous", "1e-5", X, t), X=[R[k]["U"] for k in q], h=ex(h)))
    elif name == "ramp up":
        A, B, ti = u(), u(), r1(rng, 0, 1)
        tf = ti + r1(rng, 0.5, 2)
        j.par = {"primitive state initial": s_(A), "primitive state final": s_(B), "time initial": ti, "time final": tf}
        j.c = dict(A=exs(A), B=exs(B), ti=ex(ti), tf=ex(tf))
        y = pts(rng, dim, 1)[0]
        X = j.to_x(y)
        a, b = j.at(X, ti - 0.1), j.at(X, tf + 0.1)
        for t in [rng.uniform(ti, tf) for _ in range(n)] + [ti - 1, tf + 1]:
            k = j.at(X, t)
            j.make.append(lambda R, k=k, t=t: dict(j.item("ramp", tol, X, t), A=R[a]["U"], B=R[b]["U"], U=R[k]["U"]))
    return j


# --- shallow water --------------------------------------------------------------------------------------------------
def water(rng, dim, name, n):
    j = Job(rng, "sw", dim, name)
    g = j.f["g"]
    T = lambda: rng.choice([0.0, rng.uniform(0, 3)])
    side = lambda a=1.0: [rng.uniform(-a, a) for _ in range(dim - 1)]
    if name == "uniform":
        w = wat(rng)
        j.par, j.c = {"primitive state": s_(w)}, {"W": exs(w)}
        [j.value(y, T()) for y in pts(rng, dim, n)]
    elif name == "contrast":
        L, R = wat(rng), wat(rng)
        j.par = {"primitive state left": s_(L), "primitive state right": s_(R)}
        j.c = dict(L=exs(L), R=exs(R))
        [j.value(y, T()) for y in pts(rng, dim, n)]
    elif name == "ritter dam break":
        t0, d = r1(rng, 0.1, 1), r1(rng, 0.2, 2)
        j.par = {"time initial": t0, "left water depth": d}
        j.c = dict(t0=ex(t0), depth=ex(d))
        c = math.sqrt(g * d)
        for xi in [rng.uniform(-3, -1.05), rng.uniform(2.1, 4)] + [rng.uniform(-0.9, 1.8) for _ in range(n)]:
            t = T()
            y = [xi * c * (t + t0)] + side()
            j.value(y, t, "1e-10")
            if -0.9 < xi < 1.8:
                j.pde(y, t, 0.01 * c * (t + t0), 0.01 * (t + t0), "1e-5")
    elif name == "hou test":
        d = r1(rng, 5, 30)
        j.par, j.c = {"reservoir water depth": d}, dict(depth=ex(d))
        for i in range(2 * n):
            y = rng.choice([[rng.uniform(-500, 500), rng.uniform(-200, 200)], [rng.uniform(330, 430), rng.uniform(0, 100)],
                            [200 + rng.uniform(-40, 40), -10 + rng.uniform(-40, 40)], [rng.uniform(-310, -190), rng.uniform(-60, 60)]])
            j.value(y, T(), "1e-9")
    elif name == "paraboloid":
        a, h0, eta, B, l = r1(rng, 0.5, 3), r1(rng, 0.2, 2), r1(rng, 0.1, 0.5), r1(rng, 0.2, 2), r1(rng, 1, 5)
        j.par = {"free surface radius": a, "water height": h0, **({"paraboloid length": l, "speed": B} if dim == 1 else {"eta": eta})}
        j.c = dict(a=ex(a), h0=ex(h0), eta=ex(eta), B=ex(B), length=ex(l))
        j.extra["B - Equation"]["manning friction coefficient"] = 0
        for y in pts(rng, dim, n + 3, 1.5 * a):
            t = T()
            if dim == 1:
                y = [l / 2 + y[0]]
            j.value(y, t, "1e-10")
            inner = y if dim == 2 else [y[0] - l / 2]
            if math.hypot(*inner) < 0.3 * a:
                j.pde(y, t, 1e-3 * a, 1e-3 * a / math.sqrt(g * h0), "1e-5")
    elif name == "sloping friction":
        sl, q, m = r1(rng, 0.001, 0.1), r1(rng, 0.1, 3), r1(rng, 0.01, 0.1)
        j.par = {"ramp slope": sl, "initial discharge": q}
        j.extra["B - Equation"]["manning friction coefficient"] = m
        j.c = dict(slope=ex(sl), q=ex(q), n=ex(m))
        [j.value(y, T(), "1e-11", "slope") for y in pts(rng, dim, n)]
        X = j.to_x(pts(rng, dim, 1)[0])
        k = j.at(X, 0.0)
        j.make.append(lambda R: dict(j.item("bath", "1e-12", X, 0.0), z=R[k]["z"]))
    elif name == "smooth vortex":
        d, b = r1(rng, 0.5, 2), r1(rng, 0.5, 2)
        bath = rng.random() < 0.5
        M = 0.0 if bath else r1(rng, -2, 2)
        d = max(d, 0.2 + (b * b * 0.07) / g + (0.1 * b if bath else 0))
        j.par = {"with bathymetry": "true" if bath else "false", "reference depth": repr(d), "mach number": M, "beta": b}
        j.c = dict(depth=ex(d), beta=ex(b), mach=ex(M), bath=bath)
        for y in pts(rng, dim, n, 1.5):
            t = T()
            y[0] += M * t
            j.value(y, t)
            j.pde(y, t, 2e-3, 2e-3)
    elif name == "soliton":
        D, A = r1(rng, 0.3, 2), r1(rng, 0.05, 0.8)
        j.par = {"still water depth": D, "amplitude": A}
        j.c = dict(depth=ex(D), amplitude=ex(A))
        cel = math.sqrt(g * (A + D))
        for i in range(n):
            t = T()
            j.value([cel * t + rng.uniform(-4, 4) * D] + side(), t, "1e-10")
    elif name == "three bumps dam break":
        l, r, cone, rest = r1(rng, 0.5, 3), r1(rng, 0, 0.5), r1(rng, 0.3, 1.5), rng.random() < 0.5
        j.par = {"well balancing validation": "true" if rest else "false", "left water depth": l, "right water depth": r, "cone magnitude": cone}
        j.c = dict(left=ex(l), right=ex(r), cone=ex(cone), rest=rest)
        for i in range(2 * n):
            j.value([rng.choice([rng.uniform(0, 75), rng.uniform(40, 55)])] + [rng.uniform(0, 30) for _ in range(dim - 1)], T(), "1e-10")
        if dim == 2:
            [j.value([a + rng.uniform(-3, 3), b + rng.uniform(-3, 3)], 0.0, "1e-10") for a, b in ((30, 6), (30, 24), (47.5, 15))]
    elif name == "transient experiments":
        L, R = wat(rng), wat(rng)
        case = rng.choice(["G1", "G2", "G3", "none"])
        j.par = {"flow state left": s_(L), "flow state right": s_(R), "experimental configuration": case}
        j.c = dict(L=exs(L), R=exs(R), case=case)
        for i in range(3 * n):
            y = rng.choice([[rng.uniform(-1, 5), rng.uniform(-0.2, 0.2)], [rng.uniform(1.8, 2.6), rng.uniform(-0.05, 0.05)],
                            [rng.uniform(1.9, 2.3), rng.uniform(-0.2, 0.2)]])
            j.value(y, T(), "1e-10")
    elif name == "function":
        for k, key, base in [("rho", "water depth expression", 1.0), ("u", "velocity x expression", 0.5), ("v", "velocity y expression", -0.5)][:dim + 1]:
            j.c[k], j.par[key] = polynomial(rng, base, dim, k)
        j.c.setdefault("v", ["0"] * 5)
        [j.value(y, T()) for y in pts(rng, dim, n)]
    elif name == "flow over bump":
        case = rng.choice(["subsonic", "transcritical"])
        j.front_frame()
        j.f["g"] = 9.81
        j.P["gravity"], j.extra = ex(9.81), {"B - Equation": {"gravity": "9.81"}}
        j.par = {"flow type": case}
        q = 4.42 if case == "subsonic" else 0.18
        head = 2 + (4.42 / 2) ** 2 / (2 * 9.81) if case == "subsonic" else 0.2 + 1.5 * (q * q / 9.81) ** (1 / 3)
        j.c = dict(case=case, q=ex(q), head=ex(head))
        [j.value([rng.uniform(0, 25)] + side(), 0.0) for _ in range(2)]
        for y in [[v] + side() for v in [rng.uniform(0, 8), rng.uniform(8, 9.7), rng.uniform(8, 9.7), rng.uniform(10.3, 11.5), rng.uniform(10.3, 11.6),
                                         rng.uniform(11.75, 12), rng.uniform(12, 20)]]:
            j.value(y, rng.uniform(0.1, 50), "1e-6", "steady")
        if case == "transcritical":
            y = [0.5] * (dim - 1)
            a, b = j.at(j.to_x([11.7 - 1e-9] + y), 1.0), j.at(j.to_x([11.7 + 1e-9] + y), 1.0)
            j.make.append(lambda R: dict(e="bumpjump", name=name, L=R[a]["U"], R=R[b]["U"], tol="1e-5"))
    return j


def scalar(rng, dim, name, n):
    j = Job(rng, "scalar", dim, name)
    if name == "uniform":
        v = r1(rng, -2, 2)
        j.par, j.c = {"primitive state": v}, {"W": exs([v])}
    else:
        j.c["rho"], j.par["expression"] = polynomial(rng, 1.0, dim, "u")
    [j.value(y, rng.choice([0.0, 1.5]), "1e-12") for y in pts(rng, dim, n)]
    return j


def interpolation(j, rng, ansatz, np):
    """The vector on a mesh against the values at the positions of its degrees of freedom."""
    j.make, j.lines, j.interp = [], [], (ansatz, np)
    j.pert = rng.choice([0.0, 1e-3])
    j.time = 0.0 if j.pert else rng.choice([0.0, 0.75])
    return j


def record(ctx, j):
    d = ctx.dir()
    ansatz, np = getattr(j, "interp", ("cG Q1", 1))
    iv = {"configuration": j.name, "direction": s_(j.dir), "position": s_(j.pos), "perturbation": j.pert}
    def go(lines, k, np, pert):
        secs = sim.sections(j.eq, j.dim, 1, bc="do nothing", ansatz=ansatz, subdiv=[3, 2, 1][:j.dim], extra=j.extra,
                            initial={"E - InitialValues": dict(iv, perturbation=pert), "E - InitialValues/" + j.name: j.par})
        del secs["H - TimeIntegrator"]
        runner.write_prm(os.path.join(d, f"{k}.prm"), secs)
        open(os.path.join(d, f"{k}.in"), "w").write("\n".join(lines) + "\n")
        r = ctx.run(ctx.exes[EXE[j.eq]], [j.dim, f"{k}.prm", f"{k}.in", f"{k}.out"], d, np=np)
        if r is None:
            return None
        out = []
        for p in range(np):
            f = os.path.join(d, f"{k}.out.{p}")
            rec = [json.loads(l) for l in open(f)] if os.path.exists(f) else []
            if not rec or rec[-1]["e"] != "end" or len(rec) != len(lines) + 1:
                ctx.violation("the solver fails on a valid input", dict(case=describe(j), err=r.err[-400:], line=(lines + [""])[len(rec)][:300]))
                return None
            out.append(rec[:-1])
        return out
    if hasattr(j, "interp"):
        R = go([f"interp {hx(j.time)}"], "a", np, j.pert)
        if R is None:
            return None
        rows = [r for p in R for r in p[0]["rows"]][:60]
        V = go([f"at {hx(j.time)} " + " ".join(str(v) for v in map(dec, r["x"])) for r in rows], "b", 1, 0.0)
        if V is None:
            return None
        items = [dict(e="interp", amp=ex(j.pert), U=[r["U"] for r in rows], V=[v["U"] for v in V[0]], Z=[r["z"] for r in rows],
                      W=[v["z"] for v in V[0]])]
    else:
        R = go(j.lines, "a", 1, 0.0)
        if R is None:
            return None
        items = [m(R[0]) for m in j.make]
    return dict(P=j.P, items=items)


def dec(s):
    """exact number of the evaluator -> hexadecimal"""
    m, _, e = s.partition("b")
    return hx(math.ldexp(int(m), int(e or 0)))


def describe(j):
    return dict(eq=j.eq, dim=j.dim, configuration=j.name, parameters=j.par, direction=j.dir, position=j.pos, equation=j.extra,
                interpolation=getattr(j, "interp", None))


GAS = ["uniform", "contrast", "three state contrast", "four state contrast", "radial contrast", "astro jet", "smooth wave", "shock front",
       "isentropic vortex", "leblanc", "noh", "icf like", "function", "rarefaction", "becker solution", "ramp up"]
WATER = ["uniform", "contrast", "ritter dam break", "hou test", "paraboloid", "sloping friction", "smooth vortex", "soliton",
         "three bumps dam break", "transient experiments", "function", "flow over bump"]
FLAT = {"isentropic vortex", "four state contrast", "astro jet", "hou test", "transient experiments", "smooth vortex", "icf like"}   # not in 1D


def cases(ctx):
    rng, out = ctx.rng, []
    for _ in range(1 if ctx.quick else 8):
        n = 3 if ctx.quick else 6
        for eq in ("euler", "aeos"):
            for name in GAS:
                for dim in ([2, 3] if name in ("four state contrast", "astro jet", "icf like") else [2] if name in FLAT else [1, 2, 3]):
                    out.append(gas(rng, eq, dim, name, n))
        for name in WATER:
            for dim in [2] if name in FLAT else [1, 2]:
                out.append(water(rng, dim, name, n))
        for name in ("uniform", "function"):
            out += [scalar(rng, d, name, n) for d in (1, 2)]
        for a in ("cG Q1", "cG Q2", "dG Q0", "dG Q1"):
            np = rng.choice([1, 2, 3])
            out.append(interpolation(gas(rng, rng.choice(["euler", "aeos"]), rng.choice([2, 2, 3]), rng.choice(["radial contrast", "function"]), 1), rng, a, np))
            out.append(interpolation(water(rng, 2, rng.choice(["sloping friction", "smooth vortex", "function"]), 1), rng, a, np))
        out.append(interpolation(scalar(rng, 2, "function", 1), rng, "cG Q1", 2))
    return out


def model(ctx):
    for sh, wa in ((True, False), (False, True)):
        ctx.model_ok("MCInitial", "shocks" if sh else "waves", constants=dict(SHOCK=sh, WATER=wa, COVOLUME=True), spec="Spec", deadlock=False,
                     invariants=["ShockOk", "WaterOk", "FrameOk"])


def run(ctx):
    model(ctx)
    ctx.build(*EXE.values())
    js = cases(ctx)
    res = ctx.map(lambda j: record(ctx, j), js)
    ok = [(j, t) for j, t in zip(js, res) if t is not None]
    ctx.validate("TraceInitial", [t for _, t in ok], lambda i: describe(ok[i][0]), constants=dict(Bump=True),
                 lenient=("flow-over-bump-jump", dict(Bump=False)))
    ctx.extra["items"] = sum(len(t["items"]) for _, t in ok)
    ctx.assumptions += ["exact solutions are differenced with a five-point stencil", "parameters of the configurations from their usual range",
                        "GeoTIFF images are not covered (the library is not available)"]
