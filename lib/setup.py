#!/usr/bin/env python3
"""Build everything the checks share: engine, precompiled headers, all objects (both modes), all harnesses."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
t0 = time.time()
hs = {}
for p in props.PROPS.values():
    hs[p["harness"]] = p
H = lambda f: os.path.join(build.VERIF, "harness", f)
try:
    rs = build.all_sources()
    build.compile_all([H("h.cpp"), H("sup.cpp")] + [H(n + ".cpp") for n in hs] + rs, "sym")
    build.compile_all([H("h.cpp")] + [H(n + ".cpp") for n in hs] + rs, "nat")
    for n, p in hs.items():
        build.build(n, [n + ".cpp", "h.cpp", *p["extra"], "sup.cpp", *p["extra_sym"]], "sym")
except build.BuildError as e:
    print(e)
    sys.exit(1)
print(f"setup done in {time.time() - t0:.0f} s")
