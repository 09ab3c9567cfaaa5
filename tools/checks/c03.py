"""C03: recovery from invariant domain violations."""
from . import integ


def run(ctx):
    ctx.build("probe", "probe_par")
    sc = integ.scenarios(ctx, 2)
    jobs = []
    per = 10 if ctx.quick else 60
    for scheme in integ.EXPLICIT + integ.IMEX:
        for strategy in ("none", "bang bang control"):
            mine = [s for s in sc if s["scheme"] == scheme and s["strategy"] == strategy and s["script"]]
            cms = sorted({tuple(s["cflmin"]) for s in mine})
            if ctx.quick:
                cms = [ctx.rng.choice(cms)]
            for cm in cms:
                pick = [s for s in mine if tuple(s["cflmin"]) == cm]
                single = [s for s in pick if len(s["script"]) == 1]
                steps = ctx.rng.sample(single, min(per // 2, len(single))) + \
                    ctx.rng.sample(pick, min(per // 2, len(pick)))
                ctx.rng.shuffle(steps)
                steps = [(s["tmax"], s["script"]) for s in steps] + [([0, 1], [])]
                jobs.append(dict(dim=2, np=2, scheme=scheme, strategy=strategy, cflmax=[9, 10], cflmin=list(cm),
                                 steps=steps))
                if strategy != "none":
                    only0 = [(s["tmax"], [[sw, [0]] for sw, _ in s["script"]]) for s in pick
                             if all(F in ([0], [0, 1]) for _, F in s["script"])]
                    jobs.append(dict(dim=1, np=1, scheme=scheme, strategy=strategy, cflmax=[9, 10],
                                     cflmin=list(cm), steps=ctx.rng.sample(only0, min(per, len(only0)))))
    tr = [t for ts in ctx.map(lambda j: integ.execute(ctx, j), jobs) for t in ts]
    ctx.log(f"{len(jobs)} runs, {len(tr)} steps with injected violations recorded")
    integ.judge(ctx, tr)
    ctx.extra["scenarios_of_the_model"] = len(sc)
