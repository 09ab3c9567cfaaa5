"""C02: every time stepping scheme is the scheme it claims to be."""
from . import integ


def run(ctx):
    ctx.build("probe", "probe_par")
    sc = integ.scenarios(ctx, 1)
    clean = [s for s in sc if not s["script"]]
    jobs = []
    for scheme in integ.EXPLICIT + integ.IMEX:
        mine = [s for s in clean if s["scheme"] == scheme]
        tm = sorted({tuple(s["tmax"]) for s in mine})
        more = [(ctx.rng.randint(1, 60), ctx.rng.choice([1, 3, 7, 20])) for _ in range(2 if ctx.quick else 8)]
        for dim, np in [(1, 1), (2, 1)] if ctx.quick else [(1, 1), (2, 1), (2, 2), (2, 4)]:
            for cflmax, cflmin in ([([9, 10], [9, 20])] if ctx.quick else
                                   [([9, 10], [9, 20]), ([1, 2], [1, 4]), ([1, 10], [1, 20]), ([3, 4], [3, 4])]):
                strategy = ctx.rng.choice(["none", "bang bang control"])
                jobs.append(dict(dim=dim, np=np, scheme=scheme, strategy=strategy, cflmax=cflmax, cflmin=cflmin,
                                 steps=[(list(t), []) for t in tm + more]))
    tr = [t for ts in ctx.map(lambda j: integ.execute(ctx, j), jobs) for t in ts]
    ctx.log(f"{len(jobs)} runs, {len(tr)} steps of the real integrators recorded")
    cases, acc = integ.judge(ctx, tr)
    for i, thetas in acc.items():
        if [1, 1] not in thetas:
            ctx.violation("source terms of the stages are combined with weights that are not those of the scheme",
                          dict(case=cases[i - 1], theta=thetas), key="erk-source-diagonal")
    ctx.extra["schemes"] = len(integ.EXPLICIT + integ.IMEX)
