"""Compiles generated shaders with the real aqsl, in parallel."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build
def compile_all(srcs, work, procs=8):
    """srcs: {name: source}; returns {name: (slx bytes or None, message)}"""
    d = os.path.join(work, "sl"); build.sh(["rm", "-rf", d]); os.makedirs(d)
    env = {k: v for k, v in os.environ.items() if not k.startswith("AQSIS")}; env["HOME"] = d
    def one(n):
        f = os.path.join(d, n + ".sl"); open(f, "w").write(srcs[n])
        try: p = subprocess.run([build.AQSL, "-o", n + ".slx", n + ".sl"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
        except subprocess.TimeoutExpired: return n, (None, "the compiler did not end")
        o = os.path.join(d, n + ".slx")
        if p.returncode != 0 or not os.path.exists(o): return n, (None, "compiler status %d: %s" % (p.returncode, p.stdout.decode("latin1")[-400:]))
        return n, (open(o, "rb").read(), p.stdout.decode("latin1"))
    with ThreadPoolExecutor(procs) as ex: return dict(ex.map(one, list(srcs)))
