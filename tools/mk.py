#!/usr/bin/env python3
import sys, time
import build, targets
names = sys.argv[1:] or list(targets.TARGETS)
t = time.time()
try:
    exes, stats = build.build({n: targets.TARGETS[n]() for n in names})
except build.BuildError as e:
    print(e); sys.exit(2)
print(exes, stats, round(time.time() - t, 1))
