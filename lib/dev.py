#!/usr/bin/env python3
"""dev.py HARNESS [config] [--double] [--full|--mini] [-DX...] [-- harness args]: build and run one harness."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
a = sys.argv[1:]
rest = []
if "--" in a:
    i = a.index("--"); rest = a[i + 1:]; a = a[:i]
cfg = next((x for x in a[1:] if x in vbuild.CONFIGS), "asan")
src = next((x[6:] for x in a if x.startswith("--src=")), "full" if "--full" in a else "mini" if "--mini" in a else "geo" if "--geo" in a else "core")
try:
    exe = vbuild.build("dev_" + a[0].split(".")[0], a[0], cfg, sources=src,
                       defs=("EDYN_DOUBLE_PRECISION",) if "--double" in a else (), extra=tuple(x for x in a if x.startswith(("-D", "-U"))))
except vbuild.BuildError as e:
    print("\n".join(l for l in str(e).splitlines() if "error" in l)[:2500] or str(e)[-2000:]); sys.exit(2)
env = dict(os.environ, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", TSAN_OPTIONS="halt_on_error=1")
os.makedirs(vbuild.VERIF + "/.run", exist_ok=True)
sys.exit(subprocess.run([exe, *rest, "--out", vbuild.VERIF + "/.run/dev.json"], env=env).returncode)
