"""Runs TLC and extracts its statistics and printed values."""
import os, re, shutil, subprocess, tempfile
from . import pool
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def find_jars():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar")]
    return ":".join(sorted(jars, key=lambda j: "tla2tools" not in j))

def run(module, cfg, env=None, workers="auto", simulate=None, depth=None, seed=None, deadlock=False,
        timeout=1500, heap="4g", extra=(), gcthreads=None):
    """Returns dict(out=..., generated=, distinct=, printed=[...], violation=bool)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=pool.BASE)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss256m",
           "-Dtlc2.tool.impl.Tool.cdot=false", "-Djava.io.tmpdir=" + meta, "-cp", find_jars(), "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
    if gcthreads: cmd.insert(1, "-XX:ParallelGCThreads=%d" % gcthreads)
    if not deadlock: cmd.append("-deadlock")
    if simulate: cmd += ["-simulate", simulate]
    if depth: cmd += ["-depth", str(depth)]
    if seed is not None: cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m: gen = dist = int(m[-1])
    mi = re.search(r"Finished computing initial states: (\d+)", out)
    init = int(mi.group(1)) if mi else 1
    printed = [l for l in out.split("\n") if l.startswith("<<") or l.startswith('"')]
    viol = bool(re.search(r"Invariant \S+ is violated|Action property \S+ is violated|is violated|Assumption .* is false", out))
    ok = p.returncode == 0
    return {"out": out, "rc": p.returncode, "generated": gen, "distinct": dist, "init": init, "printed": printed,
            "violation": viol, "ok": ok}
