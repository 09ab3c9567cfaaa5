"""Build targets (executable -> translation units) of the harness."""
import os
from build import Unit, SRC, H

INST = os.path.join(H, "inst")
COMMON = ["discretization", "offline_data"]
DEP = ["hyperbolic_module", "parabolic_module", "initial_values", "time_integrator"]
LOOP = ["mesh_adaptor", "postprocessor", "quantities", "vtu_output", "time_loop"]


def dims(ds):
    return [f"VDIM{'' if k == 0 else k + 1}={d}" for k, d in enumerate(ds)]


def common(ds, variant):
    u = [Unit(os.path.join(INST, c + ".cc"), [], dims(ds), variant) for c in COMMON]
    u += [Unit(os.path.join(SRC, c), [], [], variant)
          for c in ["multicomponent_vector.cc", "simd.cc", "sparse_matrix_simd.cc", "equation_dispatch.cc"]]
    u += [Unit(os.path.join(SRC, "version_info.cc"), [],
               ['RYUJIN_VERSION="v"', 'RYUJIN_GIT_REVISION="r"', 'RYUJIN_GIT_SHORTREV="s"'], variant)]
    return u


def probe(ds=(1, 2), variant="base", parabolic=False, main="probe_main.cc", mods=DEP + LOOP):
    P = os.path.join(H, "probe")
    d = dims(ds) + (["PROBE_PARABOLIC"] if parabolic else [])
    u = common(ds, variant)
    u += [Unit(os.path.join(INST, m + ".cc"), [P], d, variant) for m in mods]
    u += [Unit(os.path.join(P, "initial_state_library.cc"), [P], d, variant),
          Unit(os.path.join(P, main), [P], d, variant)]
    return u


def sim(eq, ds=(1, 2), variant="base", main="sim/sim_main.cc", mods=DEP, extra=("limiter", "riemann_solver"), defs=()):
    E = os.path.join(SRC, eq)
    d = dims(ds)
    u = common(ds, variant)
    u += [Unit(os.path.join(INST, m + ".cc"), [E], d, variant) for m in mods]
    u += [Unit(os.path.join(SRC, eq, m + ".cc"), [E], [], variant) for m in ("initial_state_library",) + tuple(extra)]
    u += [Unit(os.path.join(H, main), [E], d + list(defs), variant)]
    return u


def qt(eq, *extra):
    return sim(eq, mods=DEP + ["quantities"], extra=("limiter", "riemann_solver") + extra, defs=["WITH_QUANTITIES"])


def ini(eq, *extra):
    E, d = os.path.join(SRC, eq), dims((1, 2, 3))
    u = common((1, 2, 3), "base") + [Unit(os.path.join(INST, "initial_values.cc"), [E], d, "base")]
    u += [Unit(os.path.join(SRC, eq, m + ".cc"), [E], [], "base") for m in ("initial_state_library",) + extra]
    return u + [Unit(os.path.join(H, "ini", "ini_main.cc"), [E], d, "base")]


def vt(eq, *extra):
    E, d = os.path.join(SRC, eq), dims((1, 2, 3))
    u = common((1, 2, 3), "base") + [Unit(os.path.join(INST, m + ".cc"), [E], d, "base") for m in ("initial_values", "postprocessor", "vtu_output")]
    u += [Unit(os.path.join(E, m + ".cc"), [E], [], "base") for m in ("initial_state_library",) + extra]
    return u + [Unit(os.path.join(H, "vt", "vt_main.cc"), [E], d, "base")]


def pa():
    """the parabolic module of the Navier-Stokes equations"""
    E, d = os.path.join(SRC, "navier_stokes"), dims((1, 2, 3))
    u = common((1, 2, 3), "base") + [Unit(os.path.join(INST, m + ".cc"), [E], d, "base") for m in ("initial_values", "parabolic_module")]
    u += [Unit(os.path.join(E, m + ".cc"), [E], [], "base") for m in ("initial_state_library", "parabolic_solver")]
    return u + [Unit(os.path.join(H, "pa", "pa_main.cc"), [E], d, "base")]


EQS = {"euler": (), "euler_aeos": ("equation_of_state_library",), "shallow_water": (), "scalar_conservation": ("flux_library",),
       "navier_stokes": (), "skeleton": ()}


def drv():
    """the driver with all equations and a stand-in for the time loop"""
    D, d = os.path.join(H, "drv"), dims((1, 2, 3))
    u = common((1, 2, 3), "base") + [Unit(os.path.join(D, "main.cc"), [D], [], "base")]
    for eq, extra in EQS.items():
        E = os.path.join(SRC, eq)
        u += [Unit(os.path.join(INST, "initial_values.cc"), [E], d, "base"), Unit(os.path.join(E, "equation_dispatch.cc"), [D, E], [], "base")]
        u += [Unit(os.path.join(E, m + ".cc"), [E], [], "base") for m in ("initial_state_library",) + extra]
    return u


TARGETS = {
    "drv": drv,
    "sim_euler": lambda: sim("euler"),
    "sim_euler_async": lambda: sim("euler", variant="async"),
    "sim_sw": lambda: sim("shallow_water"),
    "sim_scalar": lambda: sim("scalar_conservation", extra=("limiter", "riemann_solver", "flux_library")),
    "sim_aeos": lambda: sim("euler_aeos", extra=("limiter", "riemann_solver", "equation_of_state_library")),
    "pt_euler": lambda: sim("euler", main="pt/pt_main.cc"),
    "pt_sw": lambda: sim("shallow_water", main="pt/pt_main.cc"),
    "pt_scalar": lambda: sim("scalar_conservation", main="pt/pt_main.cc",
                             extra=("limiter", "riemann_solver", "flux_library")),
    "pt_aeos": lambda: sim("euler_aeos", main="pt/pt_main.cc",
                           extra=("limiter", "riemann_solver", "equation_of_state_library")),
    "qt_euler": lambda: qt("euler"),
    "qt_sw": lambda: qt("shallow_water"),
    "qt_scalar": lambda: qt("scalar_conservation", "flux_library"),
    "qt_aeos": lambda: qt("euler_aeos", "equation_of_state_library"),
    "tl_euler": lambda: sim("euler", main="tl/tl_main.cc", mods=DEP + LOOP),
    "off": lambda: common((1, 2, 3), "base") + [Unit(os.path.join(H, "off", "off_main.cc"), [], dims((1, 2, 3)), "base")],
    "ini_euler": lambda: ini("euler"),
    "ini_aeos": lambda: ini("euler_aeos", "equation_of_state_library"),
    "ini_sw": lambda: ini("shallow_water"),
    "ini_scalar": lambda: ini("scalar_conservation", "flux_library"),
    "st": lambda: [Unit(os.path.join(H, "st", "st_main.cc"), [], [], "base"), Unit(os.path.join(SRC, "multicomponent_vector.cc"), [], [], "base")],
    "vt_euler": lambda: vt("euler"),
    "vt_sw": lambda: vt("shallow_water"),
    "pa": pa,
    "probe": lambda: probe(),
    "probe_par": lambda: probe(parabolic=True),
    "probe_async": lambda: probe(variant="async"),
}
